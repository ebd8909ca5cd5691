from .ops import OPS
NOPOS = [o for o in OPS if o != 'pos']
# defined, finite and smooth at every input
TOTAL = ['sin', 'cos', 'tanh', 'arctan', 'neg', 'add', 'sub', 'mul', 'addc', 'subc', 'mulc', 'divc', 'cadd', 'csub', 'cmul', 'sum',
         'sumn', 'average', 'averagen', 'dot', 'cross', 'inner', 'outer', 'matmat', 'matvec', 'einsum', 'transpose', 'reorder_axes',
         'reshape', 'expand', 'rotmat', 'getitem', 'max', 'min']
