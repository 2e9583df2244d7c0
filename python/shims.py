"""Minimal stand-ins for google.protobuf and twirpy (neither is installed here).

protobuf: message classes are made from the serialized descriptor in comfo_pb2.py,
and really encode and decode. twirp: requests go to a function instead of the network.
"""
import enum
import struct
import sys
import types


def varint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise ValueError("truncated varint")
        v |= (b[i] & 0x7F) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return v, i


def fields(b):
    """Yields (number, wire type, value) of a serialized message."""
    i = 0
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 2:
            ln, i = varint(b, i)
            if i + ln > len(b):
                raise ValueError("truncated")
            v, i = b[i:i + ln], i + ln
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        else:
            raise ValueError("wire type %d" % w)
        yield n, w, v


def enc(v):
    out = bytearray()
    while v > 0x7F:
        out.append(v & 0x7F | 0x80)
        v >>= 7
    out.append(v)
    return bytes(out)


FLOAT, UINT32, BOOL, STRING, ENUM, INT32, UINT64 = 2, 13, 8, 9, 14, 5, 4
ZERO = {FLOAT: 0.0, UINT32: 0, BOOL: False, STRING: "", ENUM: 0, INT32: 0, UINT64: 0}


class Message:
    FIELDS = {}  # name -> (number, type)

    def __init__(self, **kw):
        for n, (_, t) in self.FIELDS.items():
            object.__setattr__(self, n, ZERO[t])
        for n, v in kw.items():
            if n not in self.FIELDS:
                raise ValueError("Protocol message %s has no %r field." % (type(self).__name__, n))
            if v is not None:
                setattr(self, n, v)

    def __setattr__(self, n, v):
        if n not in self.FIELDS:
            raise AttributeError(n)
        t = self.FIELDS[n][1]
        if t in (UINT32, UINT64, INT32, ENUM):
            if isinstance(v, (str, bytes, float)) or not hasattr(v, "__index__"):
                raise TypeError("%r has type %s, but expected one of: int" % (v, type(v)))
            v = int(v)
            lim = {UINT32: (0, 2**32 - 1), UINT64: (0, 2**64 - 1)}.get(t, (-2**31, 2**31 - 1))
            if not lim[0] <= v <= lim[1]:
                raise ValueError("Value out of range: %d" % v)
        elif t == BOOL:
            if not isinstance(v, (bool, int)):
                raise TypeError("%r has type %s, but expected one of: bool, int" % (v, type(v)))
            v = bool(v)
        elif t == STRING:
            if not isinstance(v, str):
                raise TypeError("%r is no str" % (v,))
        elif t == FLOAT:
            v = struct.unpack("<f", struct.pack("<f", v))[0]
        object.__setattr__(self, n, v)

    def SerializeToString(self):
        out = b""
        for n, (no, t) in sorted(self.FIELDS.items(), key=lambda f: f[1]):
            v = getattr(self, n)
            if v == ZERO[t]:
                continue
            if t == STRING:
                s = v.encode()
                out += enc(no << 3 | 2) + enc(len(s)) + s
            elif t == FLOAT:
                out += enc(no << 3 | 5) + struct.pack("<f", v)
            else:
                out += enc(no << 3) + enc(int(v) & (2**64 - 1))
        return out

    def ParseFromString(self, b):
        self.__init__()
        for no, w, v in fields(bytes(b)):
            for n, (k, t) in self.FIELDS.items():
                if k != no or w != {STRING: 2, FLOAT: 5}.get(t, 0):
                    continue
                if t == STRING:
                    v = v.decode()
                elif t == FLOAT:
                    v = struct.unpack("<f", v)[0]
                elif t == UINT32:
                    v &= 2**32 - 1
                elif t == BOOL:
                    v = v != 0
                object.__setattr__(self, n, v)
        return len(b)

    def MergeFromString(self, b):
        return self.ParseFromString(b)

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m


class Obj:
    pass


class SymDB:
    def __init__(self):
        self.syms = {}

    def GetSymbol(self, name):
        return self.syms[name]


class Pool:
    def AddSerializedFile(self, b):
        d = Obj()
        d.serialized = bytes(b)
        return d


_db, _pool = SymDB(), Pool()


def build(desc, glob):
    """BuildMessageAndEnumDescriptors: reads a FileDescriptorProto."""
    pkg, msgs = "", []
    for n, _, v in fields(desc.serialized):
        if n == 2:
            pkg = v.decode()
        elif n == 4:
            msgs.append(v)
    desc.msgs = {}
    for m in msgs:
        name, fs = "", {}
        for n, _, v in fields(m):
            if n == 1:
                name = v.decode()
            elif n == 2:
                f = {k: x for k, _, x in fields(v)}
                fs[f[1].decode()] = (f[3], f[5])
        cls = type(name, (Message,), {"FIELDS": fs})
        desc.msgs[name] = cls
        _db.syms[pkg + "." + name] = cls
        glob["_" + name.upper()] = Obj()


def build_top(desc, module, glob):
    glob.update(desc.msgs)


class Errors(enum.Enum):
    Canceled = "canceled"
    Unknown = "unknown"
    InvalidArgument = "invalid_argument"
    DeadlineExceeded = "deadline_exceeded"
    NotFound = "not_found"
    BadRoute = "bad_route"
    AlreadyExists = "already_exists"
    PermissionDenied = "permission_denied"
    Unauthenticated = "unauthenticated"
    ResourceExhausted = "resource_exhausted"
    FailedPrecondition = "failed_precondition"
    Aborted = "aborted"
    OutOfRange = "out_of_range"
    Unimplemented = "unimplemented"
    Internal = "internal"
    Unavailable = "unavailable"
    DataLoss = "data_loss"
    Malformed = "malformed"
    NoError = ""


class TwirpServerException(Exception):
    def __init__(self, *args, code, message, meta=None):
        try:
            self._code = Errors(code)
        except ValueError:
            self._code = Errors.Unknown
        self._message, self._meta = message, meta or {}
        super().__init__(message)

    code = property(lambda s: s._code)
    message = property(lambda s: s._message)
    meta = property(lambda s: s._meta)


class Context:
    def __init__(self):
        self._values, self._headers = {}, {}

    def set(self, k, v):
        self._values[k] = v

    def get(self, k):
        return self._values[k]

    def get_headers(self):
        return self._headers

    def set_header(self, k, v):
        self._headers[k] = v


class TwirpClient:
    transport = None  # (address, url, body) -> bytes, or raises TwirpServerException

    def __init__(self, address, timeout=5):
        self._address, self._timeout = address, timeout

    def _make_request(self, *args, url, ctx, request, response_obj, **kwargs):
        if not isinstance(ctx, Context):
            raise TypeError("ctx")
        r = response_obj()
        r.ParseFromString(TwirpClient.transport(self._address, url, request.SerializeToString()))
        return r


class TwirpServer:
    def __init__(self, *args, service):
        self.service = service


class Endpoint:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        p, _, c = name.rpartition(".")
        if p:
            setattr(sys.modules[p], c, m)
        return m

    mod("google")
    mod("google.protobuf")
    mod("google.protobuf.internal")
    mod("google.protobuf.descriptor", _USE_C_DESCRIPTORS=True)
    mod("google.protobuf.descriptor_pool", Default=lambda: _pool)
    mod("google.protobuf.symbol_database", Default=lambda: _db)
    mod("google.protobuf.internal.builder", BuildMessageAndEnumDescriptors=build, BuildTopDescriptorsAndMessages=build_top)
    mod("google.protobuf.message", Message=Message)
    mod("twirp")
    mod("twirp.context", Context=Context)
    mod("twirp.errors", Errors=Errors)
    mod("twirp.exceptions", TwirpServerException=TwirpServerException)
    mod("twirp.client", TwirpClient=TwirpClient)
    mod("twirp.server", TwirpServer=TwirpServer)
    mod("twirp.base", Endpoint=Endpoint)
