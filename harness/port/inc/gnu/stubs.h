// the machine these programs run on has no C library of its own
