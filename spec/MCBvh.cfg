SPECIFICATION Spec
CONSTANTS Boxes <- B  Rays <- R  Sizes = {1, 2, 3}  MaxLeaf = 2
INVARIANTS Permutation Partition Nested First Free Once Shallow
CHECK_DEADLOCK FALSE
