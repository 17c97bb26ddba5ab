# Jython has no mmap module; bitstring only needs the name.
class mmap(object): pass
ACCESS_READ = 1
