"""everything the deductive part takes for granted (printed in every evidence file)"""
TRUSTED = ['pyvc (this generator) and z3 / cvc5',
    'python: expression, statement, class and closure semantics are those of CPython itself (the real code is executed on symbolic values); only for loops and comprehensions over symbolic sequences, list / dict displays and bare excepts are rewritten',
    'numpy: array creation (array, full, zeros, ones, empty, arange, append, concatenate, full_like, meshgrid, column_stack, hstack, stack)',
    'numpy: indexing and assignment (integer, slice, boolean mask, integer array), ravel, flat, reshape, transpose, fliplr',
    'numpy: argsort / lexsort return a permutation that sorts; sorted arrangements of one array are equal element by element',
    'numpy: unique (sorted distinct values, first index, counts), searchsorted / digitize on sorted arrays, unravel_index',
    'numpy: add.reduceat, minimum.reduceat, sum, min, max, mean, any, all, count_nonzero, where, argwhere, isnan, round (within half a unit, exact on values already rounded), ceil, floor',
    'numpy.linalg.lstsq is a function of the set of (row, value) pairs (the least squares solution itself is trusted); next to a constant column the other coefficients do not depend on shifts of the columns (true where the solution is unique)',
    'aggregates (sum, min, max, count) over equal multisets of values are equal',
    'a count, sum, minimum or maximum accumulated position by position equals the aggregate over those positions',
    'generators are evaluated at once, like lists',
    'numpy.array_split, savetxt; the text of a float reads back as that float; GDAL, json, dask and zarr give back what they were given (stand-ins of contracts/)',
    'for whole numbers n >= 1, n & (n - 1) is 0 exactly when n is a power of two',
    'numba.njit does not change the meaning of a function']
