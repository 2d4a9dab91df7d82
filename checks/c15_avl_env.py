"""C15: an AVL evaluation leaves the process as it found it."""
from sim.core import Violation
from checks.c14_avl import AVLBase, NO_WITH


class C15(AVLBase):
    prop = 'C15'
    n_quick, n_thorough = 600, 40000
    env_only = True
    rule = ('the AVL histories of C14; after every evaluation or training, however it ended, the working folder, both standard streams and the child processes are compared '
            'with what they were before it; non-trivial = a fault fired or more than two operations')
    assumptions = ['an interrupt at an instruction is only placed where no context manager is being entered or left (Python itself cannot guarantee a clean-up there); '
                   'interrupts also arrive at any file operation and while AVL runs']
    expected_probes = ['raised', 'clean_after_error', 'clean_after_return']
    state_measure = 'distinct (operation, analysis, keep files, trim, fault origin, interrupted, outcome, position in the history)'

    def where(self):
        return NO_WITH

    def after(self, name, left, how):
        from sim.core import CURRENT
        CURRENT[0].probe('clean_after_return' if how == 'returned' else 'clean_after_error')
        if left: raise Violation('process-changed', '%s %s: %s' % (name, how if how == 'returned' else 'raised ' + how, '; '.join(left)), 'process-changed:' + left[0].split(' is ')[0])


CHECK = C15()
