"""C06: which code blocks md2po extracts.

Rule: most-general client in product with the reference automaton of the code
block commands, from both values of the include_codeblocks option; a code
block is saved iff no mdpo-disable-codeblock is pending and code blocks are
switched on or mdpo-include-codeblock is pending (and extraction is enabled);
a code block consumes the pending code block commands and, when it is left
out, nothing else."""
from .extraction import *
from .docitems import *
from .c01 import Spec, cmp_saved, drive


def check(ctx):
    al = [item_cmd(n) for n in CODECMDS] + CODE + [
        ('code in list item', UL(LI(P(T(0)), FENCED(T(1)), P(T(2))),
                                 tight=False),
         m(0) + [('code', 1)] + m(2)),
        ('code in quote', QUOTE(FENCED(T(0)), P(T(1))),
         [('code', 0)] + m(1)),
        ('code with language', FENCED(T(0), lang='python'), [('code', 0)]),
        ('many-line code', FENCED(T(0), t('\n', 'CODE')), [('code', 0)]),
        BLOCKS[0], BLOCKS[3],
        item_cmd('mdpo-disable-next-block'),
        item_cmd('mdpo-enable-next-block'),
    ]
    if ctx.thorough:
        al += [item_cmd('mdpo-disable'), item_cmd('mdpo-enable'),
               item_cmd('mdpo-context', 'some context')] + BLOCKS[1:] + INLINE
    for plain in ((False, True) if ctx.thorough else (False,)):
        for code in (False, True):
            drive(ctx, 'code-block-commands', {
                'plaintext': K(plain), 'include_codeblocks': K(code),
                'location': FALSE}, al, Spec(Cmds(code=code), cmp_saved))
            ctx.begin()
