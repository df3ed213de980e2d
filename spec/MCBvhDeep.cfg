SPECIFICATION Spec
CONSTANTS Boxes <- B  Rays <- RD  Sizes = {3, 4}  MaxLeaf = 2
INVARIANTS Permutation Partition Nested First Free Once Shallow
CHECK_DEADLOCK FALSE
