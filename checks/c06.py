"""C06 which package a file belongs to, what is loaded and watched, which manifest answers for a file opened on its own."""
from checks import c05


def run(ctx):
    c05.replay(ctx, ["own", "for", "watch"], "owners of files")
