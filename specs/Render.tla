------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* What Display and Debug print (C20), on texts given as sequences of code *)
(* points and outputs given as sequences of lines.                         *)
(* A matrix: nr, nc, ord and the texts e of its logical elements, row by   *)
(* row.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
SP == 32
LF == 10
CR == 13
OPEN == 91
CLOSE == 93
NoSpace(t) == SelectSeq(t, LAMBDA c : c # SP)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

\* index of the first element at or after k that satisfies / does not satisfy "space"
RECURSIVE SkipSp(_, _)
SkipSp(t, k) == IF k <= Len(t) /\ t[k] = SP THEN SkipSp(t, k + 1) ELSE k
RECURSIVE SkipTok(_, _)
SkipTok(t, k) == IF k <= Len(t) /\ t[k] # SP THEN SkipTok(t, k + 1) ELSE k
RECURSIVE TokensFrom(_, _)
TokensFrom(t, k) ==
  LET a == SkipSp(t, k)
      b == SkipTok(t, a)
  IN IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o TokensFrom(t, b)
Tokens(t) == TokensFrom(t, 1)
RECURSIVE BackSp(_, _)
BackSp(t, k) == IF k >= 1 /\ t[k] = SP THEN BackSp(t, k - 1) ELSE k
Trim(t) == SubSeq(t, SkipSp(t, 1), BackSp(t, Len(t)))

\* the tokens printed between two brackets are exactly these texts
Plain(texts) == \A i \in 1..Len(texts) : texts[i] # <<>> /\ \A k \in 1..Len(texts[i]) : texts[i][k] # SP
Cells(inner, texts) ==
  IF Plain(texts) THEN Tokens(inner) = texts
  ELSE NoSpace(inner) = NoSpace(FlattenSeq(texts))
Bracketed(t, texts) ==
  LET u == Trim(t)
  IN /\ Len(u) >= 2 /\ u[1] = OPEN /\ u[Len(u)] = CLOSE
     /\ Cells(SubSeq(u, 2, Len(u) - 1), texts)

Row(m, r) == SubSeq(m.e, r * m.nc + 1, (r + 1) * m.nc)
Position(m, r, c) == IF m.ord = 0 THEN r * m.nc + c ELSE c * m.nr + r
Single(m) == \A i \in 1..Len(m.e) : \A k \in 1..Len(m.e[i]) : m.e[i][k] \notin {LF, CR}
Framed(out) == Len(out) >= 2 /\ Trim(out[1]) = <<OPEN>> /\ Trim(out[Len(out)]) = <<CLOSE>>
Wide(out, from, to) == \A i \in from..to : Len(out[i]) = Len(out[from])

\* ----------------------------------------------------------------- Display
DisplaySingle(m, out) ==
  /\ Framed(out) /\ Len(out) = m.nr + 2
  /\ \A r \in 0..(m.nr - 1) : Bracketed(out[r + 2], Row(m, r))
  /\ Wide(out, 2, m.nr + 1)
\* a matrix without elements: nothing but brackets
NoElements(m, out) ==
  \/ NoSpace(FlattenSeq(out)) = <<OPEN, CLOSE>>
  \/ Framed(out) /\ Len(out) = m.nr + 2 /\ \A r \in 0..(m.nr - 1) : Bracketed(out[r + 2], <<>>)
  
\* several lines per element: the characters of each row together, row by row
IsDigit(c) == c \in 48..57
Count(t, c) == Len(SelectSeq(t, LAMBDA x : x = c))
SameBag(t, u) == Len(t) = Len(u) /\ \A c \in {t[i] : i \in 1..Len(t)} : Count(t, c) = Count(u, c)
\* t is, from its first position on, the rows' characters in turn
Chunks(rows, t) ==
  LET starts == FoldLeft(LAMBDA a, row : Append(a, a[Len(a)] + Len(row)), <<1>>, rows)
  IN /\ starts[Len(rows) + 1] = Len(t) + 1
     /\ \A r \in 1..Len(rows) : SameBag(SubSeq(t, starts[r], starts[r + 1] - 1), rows[r])
DisplayMulti(m, out) ==
  LET keep(t) == SelectSeq(t, LAMBDA c : c \notin {SP, LF, CR, OPEN, CLOSE})
      rows == [r \in 1..m.nr |-> keep(FlattenSeq(Row(m, r - 1)))]
  IN Chunks(rows, keep(FlattenSeq(out)))
Display(m, out) ==
  IF m.nr = 0 \/ m.nc = 0 THEN NoElements(m, out)
  ELSE IF Single(m) THEN DisplaySingle(m, out) ELSE DisplayMulti(m, out)

\* ------------------------------------------------------------------- Debug
Labelled(m, r) ==
  FlattenSeq([c \in 1..m.nc |-> <<Digits(Position(m, r, c - 1)), m.e[r * m.nc + c]>>])
DebugRow(m, r, t) ==
  LET k == SelectInSeq(t, LAMBDA c : c = OPEN)
  IN /\ k > 0
     /\ Tokens(SubSeq(t, 1, k - 1)) = <<Digits(r)>>
     /\ Bracketed(SubSeq(t, k, Len(t)), Labelled(m, r))
Header(m, t) == Tokens(t) = [c \in 1..m.nc |-> Digits(c - 1)]
DebugSingle(m, out) ==
  /\ Framed(out) /\ Len(out) = m.nr + 3
  /\ Header(m, out[2])
  /\ \A r \in 0..(m.nr - 1) : DebugRow(m, r, out[r + 3])
  /\ Wide(out, 3, m.nr + 2)
DebugMulti(m, out) ==
  LET keep(t) == SelectSeq(t, LAMBDA c : c \notin {SP, LF, CR, OPEN, CLOSE} /\ ~IsDigit(c))
      numbers(t) == SelectSeq(t, IsDigit)
      rows == [r \in 1..m.nr |-> keep(FlattenSeq(Row(m, r - 1)))]
      free == \A i \in 1..Len(m.e) : numbers(m.e[i]) = <<>>
  IN /\ Chunks(rows, keep(FlattenSeq(out)))
     /\ free => Len(out) >= 3 /\ Header(m, out[2]) /\
                numbers(FlattenSeq(SubSeq(out, 3, Len(out)))) =
                FlattenSeq([r \in 1..m.nr |-> Digits(r - 1) \o
                              FlattenSeq([c \in 1..m.nc |-> Digits(Position(m, r - 1, c - 1))])])
Debug(m, out) ==
  IF m.nr = 0 \/ m.nc = 0
  THEN NoElements(m, [i \in 1..Len(out) |-> SelectSeq(out[i], LAMBDA c : ~IsDigit(c))])
  ELSE IF Single(m) THEN DebugSingle(m, out) ELSE DebugMulti(m, out)

\* ---------------------------------------------- very wide elements, as runs
\* A line is a sequence of <<code point, how often>>; e gives the elements as
\* such runs of distinct letters; fewer than ten elements.
Runs(line) == SelectSeq(line, LAMBDA x : x[1] # SP)
RunWidth(line) == FoldLeft(LAMBDA w, x : w + x[2], 0, line)
Sign(ch) == <<<<ch, 1>>>>
WideRows(m, out, first, Row1(_)) ==
  /\ Runs(out[1]) = Sign(OPEN) /\ Runs(out[Len(out)]) = Sign(CLOSE)
  /\ \A r \in 0..(m.nr - 1) : /\ Runs(out[first + r]) = Row1(r)
                               /\ RunWidth(out[first + r]) = RunWidth(out[first])
WideDisplay(m, out) ==
  LET R(r) == Sign(OPEN) \o Row(m, r) \o Sign(CLOSE)
  IN Len(out) = m.nr + 2 /\ WideRows(m, out, 2, R)
WideDebug(m, out) ==
  LET Cell(r, c) == Sign(48 + Position(m, r, c)) \o <<m.e[r * m.nc + c + 1]>>
      R(r) == Sign(48 + r) \o Sign(OPEN) \o FlattenSeq([c \in 1..m.nc |-> Cell(r, c - 1)]) \o Sign(CLOSE)
  IN /\ Len(out) = m.nr + 3 /\ WideRows(m, out, 3, R)
     /\ Runs(out[2]) = [c \in 1..m.nc |-> <<47 + c, 1>>]
=============================================================================
