"ret", "rc", "alloc", "init", "newcopy", "prep", "json:refused", "mm:refused", "spmm:refused", "allocate", "new",
"append", "append:copy", "resize", "empty", "nospace", "transpose", "sort:copy",
