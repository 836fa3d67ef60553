"""Public attribute names of numpy arrays, matrices and scalars, and of the scipy sparse classes (union over the classes)."""
ARRAY = set('''
A A1 H I T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device
diagonal dot dtype dump dumps fill flags flat flatten getA getA1 getH getI getT getfield imag item itemset itemsize mT max mean min nbytes ndim
newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides
sum swapaxes take to_device tobytes tofile tolist tostring trace transpose var view
'''.split())
SPARSE = set('''
A H T arcsin arcsinh arctan arctanh argmax argmin asformat asfptype astype blocksize ceil check_format clear col conj conjtransp conjugate coords copy
count_nonzero data deg2rad diagonal dot dtype eliminate_zeros expm1 floor format fromkeys get getH get_shape getcol getformat getmaxprint getnnz
getrow getrowview has_canonical_format has_sorted_indices imag indices indptr items keys log1p max maximum maxprint mean min minimum multiply nanmax
nanmin ndim nnz nonzero offsets pop popitem power prune rad2deg real reshape resize rint row rows set_shape setdefault setdiag shape sign sin sinh
size sort_indices sorted_indices sqrt sum sum_duplicates tan tanh toarray tobsr tocoo tocsc tocsr todense todia todok tolil trace transpose trunc
update values
'''.split())
