"""Builds the drivers once, so that the checks only rebuild what changed."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import c_text
c_text.hmsg(False)
c_text.hmsg(True)
import c_cli, vlib
c_cli.runner()
vlib.fyi_binary()
import c_live, c_prog
for f in ((), ("sigint",), ("sigwinch",), ("signals",)):
    c_prog.hsim(*f)
    c_live.hlive(f)
import c_misc
c_misc.hmisc()
