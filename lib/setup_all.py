import vlib


def main():
    import shutil, subprocess
    for tool in ("java", "cargo"):
        if not shutil.which(tool):
            raise vlib.ToolError(tool + " not found")
    vlib.build(["hist", "prod", "iters", "par", "index", "size", "scalar", "fmt", "threads", "bulk"])
    print("setup done")
    return 0
