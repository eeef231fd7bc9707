"""C26: logging.  spec/Log.tla"""
from vlib import *


def main():
    c = Check("C26")
    exe, = c.build("log")
    c.replay(exe, c.walks_of_graph(c.graph("MC_Log")), "graph")
    return c.finish()
