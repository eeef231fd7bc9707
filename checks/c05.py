"""C05: phase rings and the book of rings."""
import phases_common


def main():
    return phases_common.run("C05", "MC_Phases5.cfg", "book", (2, 60, 40), (12, 120, 60))
