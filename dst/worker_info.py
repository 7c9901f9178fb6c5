"""Where the code under test lives (set by the process that runs it)."""
import os


def tree():
    return os.environ["DST_TREE"]


def in_tree(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(tree() + os.sep):
            return True
        tb = tb.tb_next
    return False
