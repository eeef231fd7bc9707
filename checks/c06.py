"""C06: states follow the current phase."""
import phases_common


def main():
    return phases_common.run("C06", "MC_Phases6.cfg", "phase", (2, 48, 50), (12, 120, 60))
