"""Minimal ELF64 reader used by the assembler and linker checks."""
import struct

class Elf:
    def __init__(self, path):
        with open(path, 'rb') as f: self.d = d = f.read()
        if d[:4] != b'\x7fELF' or len(d) < 64: raise ValueError('not an ELF file')
        (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.flags, _, phes, self.phnum, shes, self.shnum, self.shstr) = struct.unpack_from('<HHIQQQIHHHHHH', d, 16)
        self.sh = [struct.unpack_from('<IIQQQQIIQQ', d, self.shoff + i * 64) for i in range(self.shnum)]
        self.ph = [struct.unpack_from('<IIQQQQQQ', d, self.phoff + i * 56) for i in range(self.phnum)]
        so = self.sh[self.shstr][4] if self.shnum else 0
        self.names = [self.cstr(so + s[0]) for s in self.sh]
    def cstr(self, o):
        e = self.d.index(b'\0', o)
        return self.d[o:e].decode('utf-8', 'replace')
    def data(self, i):
        s = self.sh[i]
        return b'' if s[1] == 8 else self.d[s[4]:s[4] + s[5]]
    def symbols(self):
        """(name, bind, type, shndx, value, size)"""
        out = []
        for i, s in enumerate(self.sh):
            if s[1] == 2:
                so = self.sh[s[6]][4]
                for k in range(s[5] // 24):
                    n, info, oth, ndx, v, sz = struct.unpack_from('<IBBHQQ', self.d, s[4] + k * 24)
                    out.append((self.cstr(so + n), info >> 4, info & 15, ndx, v, sz))
        return out
    def relocs(self):
        out = []
        for i, s in enumerate(self.sh):
            if s[1] == 4:
                for k in range(s[5] // 24):
                    o, info, add = struct.unpack_from('<QQq', self.d, s[4] + k * 24)
                    out.append((self.names[s[7]], o, info & 0xffffffff, info >> 32, add))
        return out
    def image(self):
        """section name -> (addr, size, bytes or None for nobits, align, flags) of the allocated, non-empty sections"""
        return {self.names[i]: (s[3], s[5], None if s[1] == 8 else self.data(i), s[8], s[2]) for i, s in enumerate(self.sh) if s[2] & 2 and s[5]}
