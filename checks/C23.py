"""Checksums.  Every length over several blocks with several contents, every
single byte, every bit of a block and every way to hand over the data, against
Python's implementations."""
from common import *
import hashlib, zlib

ERR = [Kw("err")]
REQ = "(require :crypto/crc32) (require :crypto/crc32c) (require :crypto/adler32) (require :crypto/md5)"


def crc32c(b):
    crc = 0xFFFFFFFF
    for x in b:
        crc ^= x
        for _ in range(8):
            crc = crc >> 1 ^ (0x82F63B78 if crc & 1 else 0)
    return crc ^ 0xFFFFFFFF


def sums(b):
    return [zlib.crc32(b), crc32c(b), zlib.adler32(b), hashlib.md5(b).hexdigest()]


ALL = "(list (crypto/crc32/hash %s) (crypto/crc32c/hash %s) (crypto/adler32/hash %s) (crypto/md5/hash %s))"


def of(src):
    return ALL % (src, src, src, src)


def lit_buf(b):
    return "#m%s" % b.hex().upper()


def contents(thorough):
    for b in range(256):
        d = bytes([b])
        yield "(let* %s (def b %s) (list %s %s))" % (REQ, lit_buf(d), of("b"), of("(buffer->string b 1)")), canon([sums(d), sums(d)])
        d = bytes([b]) * 70
        yield "(let* %s %s)" % (REQ, of("(let* (def b (buffer/allocate 70)) (dotimes (i 70) (set! b i %d)) b)" % b)), canon(sums(d))
    for n in list(range(0, 300)) + [511, 512, 513, 1000, 4095, 4096, 4097] + ([65535, 65536, 70000] if thorough else [6000]):
        # bytes of a sequence in which no period is a power of two
        for mul, add in ((1, 0), (7, 3), (0, 255)) if n < 300 or thorough else ((7, 3),):
            d = bytes((i * mul + add + i // 251) & 255 for i in range(n))
            yield "(let* %s (def b (buffer/allocate %d)) (dotimes (i %d) (set! b i (bit-and 255 (+ %d (* i %d) (div/int i 251))))) (def s (buffer->string b %d)) (list %s %s (= s (buffer->string b %d))))" % (REQ, n, n, add, mul, n, of("b"), of("s"), n), canon([sums(d), sums(d), True])
    for n in (55, 56, 63, 64, 65, 128) if not thorough else range(1, 130):
        for bit in range(0, n * 8, 1 if thorough else 5):
            d = bytearray(n)
            d[bit // 8] = 1 << bit % 8
            yield "(let* %s (def b (buffer/allocate %d)) (set! b %d %d) %s)" % (REQ, n, bit // 8, 1 << bit % 8, of("b")), canon(sums(bytes(d)))


def usage():
    for bad in ("1", "#nil", "'abc", ":abc", "1.5", "(list 97)", "(array/new 97)", "(:u16 (buffer/allocate 4))", "(tree/new)", "car"):
        yield "(let* %s (def v %s) (list %s))" % (REQ, bad, " ".join(attempt("(crypto/%s/hash v)" % m) for m in ("crc32", "crc32c", "adler32", "md5"))), canon([ERR] * 4)
    a, b = b"abc", b"message digest"
    # interleaved, nested and repeated calls don't influence each other
    for x in (a, b, b""):
        for y in (a, b, b""):
            yield "(let* %s (def x %s) (def y %s) (def fs (list crypto/crc32/hash crypto/crc32c/hash crypto/adler32/hash crypto/md5/hash)) (list (map fs (fn (f) (f x) (f y) (f x))) (crypto/md5/hash (crypto/md5/hash y))))" % (REQ, lit(None) if False else lit_str(x), lit_str(y)), canon([sums(x), hashlib.md5(hashlib.md5(y).hexdigest().encode()).hexdigest()])


def main():
    ck = Check("C23", "model_checking")
    ck.cases("contents", contents(ck.thorough), variant="asan" if ck.thorough else "plain", stall=60)
    ck.cases("use", usage())
    ck.finish()


main()
