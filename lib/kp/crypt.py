"""Independent cryptographic primitives: hashlib, OpenSSL's AES through ctypes, and own transcriptions of
Twofish and Salsa20 from their published definitions. Nothing here comes from the library under test."""
import ctypes, ctypes.util, functools, hashlib, struct, zlib

sha256 = lambda b: hashlib.sha256(b).digest()

_lib = ctypes.CDLL("libcrypto.so.3")
_lib.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
for _n in ("EVP_aes_256_ecb", "EVP_aes_256_cbc"):
    getattr(_lib, _n).restype = ctypes.c_void_p
_lib.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]
_lib.EVP_CipherInit_ex.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p,
                                   ctypes.c_char_p, ctypes.c_int]
_lib.EVP_CIPHER_CTX_set_padding.argtypes = [ctypes.c_void_p, ctypes.c_int]
_lib.EVP_CipherUpdate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p,
                                  ctypes.c_int]


class _Evp:
    def __init__(self, cipher, key, iv, enc):
        self.ctx = _lib.EVP_CIPHER_CTX_new()
        _lib.EVP_CipherInit_ex(self.ctx, getattr(_lib, cipher)(), None, key, iv, enc)
        _lib.EVP_CIPHER_CTX_set_padding(self.ctx, 0)

    def run(self, data):
        out = ctypes.create_string_buffer(len(data) + 32)
        n = ctypes.c_int(0)
        _lib.EVP_CipherUpdate(self.ctx, out, ctypes.byref(n), data, len(data))
        return out.raw[:n.value]

    def __del__(self):
        _lib.EVP_CIPHER_CTX_free(self.ctx)


class Aes:
    def __init__(self, key):
        self.key = key
        self._e = _Evp("EVP_aes_256_ecb", key, None, 1)
        self._d = _Evp("EVP_aes_256_ecb", key, None, 0)

    def enc(self, b):
        return self._e.run(b)

    def dec(self, b):
        # ECB decryption without padding keeps no block back
        return self._d.run(b)


def aes_iterate(key, block, n):
    """The block enciphered n times: CBC over n zero blocks, starting from it."""
    e = _Evp("EVP_aes_256_cbc", key, block, 1)
    while n:
        k = min(n, 1 << 18)
        block = e.run(bytes(16 * k))[-16:]
        n -= k
    return block


# ---------------------------------------------------------------- Twofish (256-bit keys), from the paper
_Q = [[[8, 1, 7, 13, 6, 15, 3, 2, 0, 11, 5, 9, 14, 12, 10, 4], [14, 12, 11, 8, 1, 2, 3, 5, 15, 4, 10, 6, 7, 0, 9, 13],
       [11, 10, 5, 14, 6, 13, 9, 0, 12, 8, 15, 3, 2, 4, 7, 1], [13, 7, 15, 4, 1, 2, 6, 14, 9, 11, 3, 0, 8, 5, 12, 10]],
      [[2, 8, 11, 13, 15, 7, 6, 14, 3, 1, 9, 4, 0, 10, 12, 5], [1, 14, 2, 11, 4, 12, 3, 7, 6, 13, 10, 5, 15, 9, 0, 8],
       [4, 12, 7, 5, 1, 6, 9, 10, 0, 14, 13, 8, 2, 11, 3, 15], [11, 9, 5, 1, 12, 3, 13, 14, 6, 4, 7, 15, 2, 0, 8, 10]]]


def _q(n, x):
    t = _Q[n]
    a, b = x >> 4, x & 15
    for k in (0, 2):
        a1 = a ^ b
        b1 = a ^ ((b >> 1) | ((b & 1) << 3)) ^ ((8 * a) & 15)
        a, b = t[k][a1], t[k + 1][b1]
    return (b << 4) | a


_q0 = [_q(0, i) for i in range(256)]
_q1 = [_q(1, i) for i in range(256)]


def _gf(a, b, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= m
        b >>= 1
    return r


_MDS = [[1, 0xef, 0x5b, 0x5b], [0x5b, 0xef, 0xef, 1], [0xef, 0x5b, 1, 0xef], [0xef, 1, 0xef, 0x5b]]
_RS = [[1, 0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e], [0xa4, 0x56, 0x82, 0xf3, 0x1e, 0xc6, 0x68, 0xe5],
       [2, 0xa1, 0xfc, 0xc1, 0x47, 0xae, 0x3d, 0x19], [0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e, 3]]
_MT = [[[_gf(_MDS[r][c], x, 0x169) for x in range(256)] for c in range(4)] for r in range(4)]


def _h(x, L):
    y = [(x >> (8 * i)) & 255 for i in range(4)]
    l = [[(w >> (8 * i)) & 255 for i in range(4)] for w in L]
    y = [_q1[y[0]] ^ l[3][0], _q0[y[1]] ^ l[3][1], _q0[y[2]] ^ l[3][2], _q1[y[3]] ^ l[3][3]]
    y = [_q1[y[0]] ^ l[2][0], _q1[y[1]] ^ l[2][1], _q0[y[2]] ^ l[2][2], _q0[y[3]] ^ l[2][3]]
    y = [_q1[_q0[_q0[y[0]] ^ l[1][0]] ^ l[0][0]], _q0[_q0[_q1[y[1]] ^ l[1][1]] ^ l[0][1]],
         _q1[_q1[_q0[y[2]] ^ l[1][2]] ^ l[0][2]], _q0[_q1[_q1[y[3]] ^ l[1][3]] ^ l[0][3]]]
    r = 0
    for i in range(4):
        v = 0
        for c in range(4):
            v ^= _MT[i][c][y[c]]
        r |= v << (8 * i)
    return r


_M32 = 0xffffffff
_rol = lambda x, n: ((x << n) | (x >> (32 - n))) & _M32
_ror = lambda x, n: ((x >> n) | (x << (32 - n))) & _M32


class Twofish:
    def __init__(self, key):
        assert len(key) == 32
        w = struct.unpack("<8I", key)
        me, mo = w[0::2], w[1::2]
        s = []
        for i in range(4):
            v = 0
            for r in range(4):
                b = 0
                for c in range(8):
                    b ^= _gf(_RS[r][c], key[8 * i + c], 0x14d)
                v |= b << (8 * r)
            s.append(v)
        self.S = s[::-1]
        rho = 0x01010101
        self.K = []
        for i in range(20):
            a = _h((2 * i * rho) & _M32, me)
            b = _rol(_h(((2 * i + 1) * rho) & _M32, mo), 8)
            self.K.append((a + b) & _M32)
            self.K.append(_rol((a + 2 * b) & _M32, 9))

    @functools.lru_cache(maxsize=None)
    def g(self, x):
        return _h(x, self.S)

    def _f(self, r0, r1, r):
        t0, t1 = self.g(r0), self.g(_rol(r1, 8))
        return (t0 + t1 + self.K[2 * r + 8]) & _M32, (t0 + 2 * t1 + self.K[2 * r + 9]) & _M32

    def _e1(self, b):
        r = [x ^ k for x, k in zip(struct.unpack("<4I", b), self.K[:4])]
        for i in range(16):
            f0, f1 = self._f(r[0], r[1], i)
            r = [_ror(r[2] ^ f0, 1), _rol(r[3], 1) ^ f1, r[0], r[1]]
        r = [r[2], r[3], r[0], r[1]]
        return struct.pack("<4I", *[x ^ k for x, k in zip(r, self.K[4:8])])

    def _d1(self, b):
        r = [x ^ k for x, k in zip(struct.unpack("<4I", b), self.K[4:8])]
        r = [r[2], r[3], r[0], r[1]]
        for i in range(15, -1, -1):
            a, bb = r[2], r[3]
            f0, f1 = self._f(a, bb, i)
            r = [a, bb, _rol(r[0], 1) ^ f0, _ror(r[1] ^ f1, 1)]
        return struct.pack("<4I", *[x ^ k for x, k in zip(r, self.K[:4])])

    def through(self, r, n):
        """The plaintext whose four words are r when n rounds are done (of 16)."""
        for i in range(n - 1, -1, -1):
            f0, f1 = self._f(r[2], r[3], i)
            r = [r[2], r[3], _rol(r[0], 1) ^ f0, _ror(r[1] ^ f1, 1)]
        return struct.pack("<4I", *[x ^ k for x, k in zip(r, self.K[:4])])

    def enc(self, b):
        return b"".join(self._e1(b[i:i + 16]) for i in range(0, len(b), 16))

    def dec(self, b):
        return b"".join(self._d1(b[i:i + 16]) for i in range(0, len(b), 16))


def block_cipher(name, key):
    return Aes(key) if name == "aes" else Twofish(key)


def _x(a, b):
    return bytes(p ^ q for p, q in zip(a, b))


def cbc_enc(name, key, iv, data):
    if name == "aes":
        return _Evp("EVP_aes_256_cbc", key, iv, 1).run(data)
    c = Twofish(key)
    out, prev = [], iv
    for i in range(0, len(data), 16):
        prev = c.enc(_x(data[i:i + 16], prev))
        out.append(prev)
    return b"".join(out)


def cbc_dec(name, key, iv, data):
    if name == "aes":
        return _Evp("EVP_aes_256_cbc", key, iv, 0).run(data)
    c = Twofish(key)
    out, prev = [], iv
    for i in range(0, len(data), 16):
        out.append(_x(c.dec(data[i:i + 16]), prev))
        prev = data[i:i + 16]
    return b"".join(out)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def unpad(data):
    """PKCS#7, every padding byte checked; None if invalid."""
    if not data or len(data) % 16 or not 1 <= data[-1] <= 16 or data[-data[-1]:] != bytes([data[-1]]) * data[-1]:
        return None
    return data[:-data[-1]]


# ---------------------------------------------------------------- Salsa20/20
def _qr(y, a, b, c, d):
    y[b] ^= _rol((y[a] + y[d]) & _M32, 7)
    y[c] ^= _rol((y[b] + y[a]) & _M32, 9)
    y[d] ^= _rol((y[c] + y[b]) & _M32, 13)
    y[a] ^= _rol((y[d] + y[c]) & _M32, 18)


def salsa_block(key, nonce, n):
    c = struct.unpack("<4I", b"expand 32-byte k")
    k = struct.unpack("<8I", key)
    v = struct.unpack("<2I", nonce)
    x0 = [c[0], k[0], k[1], k[2], k[3], c[1], v[0], v[1], n & _M32, n >> 32, c[2], k[4], k[5], k[6], k[7], c[3]]
    x = list(x0)
    for _ in range(10):
        _qr(x, 0, 4, 8, 12); _qr(x, 5, 9, 13, 1); _qr(x, 10, 14, 2, 6); _qr(x, 15, 3, 7, 11)
        _qr(x, 0, 1, 2, 3); _qr(x, 5, 6, 7, 4); _qr(x, 10, 11, 8, 9); _qr(x, 15, 12, 13, 14)
    return struct.pack("<16I", *[(a + b) & _M32 for a, b in zip(x, x0)])


class Stream:
    """The inner random stream of KDBX: Salsa20 under SHA-256 of the stream key."""
    NONCE = bytes([0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a])

    def __init__(self, key):
        self.key = sha256(key)
        self.n = 0
        self.buf = b""

    def take(self, n):
        while len(self.buf) < n:
            self.buf += salsa_block(self.key, self.NONCE, self.n)
            self.n += 1
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def process(self, b):
        return _x(b, self.take(len(b)))


# ---------------------------------------------------------------- key derivation
def composite(parts, fmt):
    """parts: [password hash or None, key-file key or None] as 32-byte values."""
    ps = [p for p in parts if p is not None]
    if fmt == "kdbx":
        return sha256(b"".join(ps))
    if len(ps) == 2:
        return sha256(b"".join(ps))
    return ps[0] if ps else bytes(32)


@functools.lru_cache(maxsize=4096)
def transform(comp, seed, rounds):
    a = Aes(seed)
    t = comp
    for _ in range(rounds):
        t = a.enc(t)
    return sha256(t)


def final_key(parts, fmt, mseed, tseed, rounds):
    return sha256(mseed + transform(composite(parts, fmt), tseed, rounds))


def selftest():
    from binascii import unhexlify as u
    assert Aes(bytes(range(32))).enc(u("00112233445566778899aabbccddeeff")) == u("8ea2b7ca516745bfeafc49904b496089")
    assert Aes(bytes(range(32))).dec(u("8ea2b7ca516745bfeafc49904b496089")) == u("00112233445566778899aabbccddeeff")
    k = u("0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF")
    assert Twofish(k).enc(bytes(16)) == u("37527BE0052334B89F0CFCCAE87CFA20")
    assert Twofish(k).dec(u("37527BE0052334B89F0CFCCAE87CFA20")) == bytes(16)
    assert salsa_block(u("80" + "00" * 31), bytes(8), 0)[:16] == u("E3BE8FDD8BECA2E3EA8EF9475B29A6E7")
    a = Aes(b"k" * 32)
    assert all(a.dec(a.enc(bytes([i]) * 16)) == bytes([i]) * 16 for i in range(40))
    return True


if __name__ == "__main__":
    print(selftest())
