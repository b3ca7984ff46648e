"""TFLite files read and written with TensorFlow's own schema (not with the converter's)."""
import flatbuffers
import numpy as np
from tensorflow.lite.python import schema_py_generated as S

NP = {S.TensorType.FLOAT32: 'float32', S.TensorType.FLOAT16: 'float16', S.TensorType.INT32: 'int32', S.TensorType.UINT8: 'uint8', S.TensorType.INT64: 'int64', S.TensorType.BOOL: 'bool', S.TensorType.INT16: 'int16', S.TensorType.INT8: 'int8', S.TensorType.FLOAT64: 'float64', S.TensorType.UINT16: 'uint16', S.TensorType.UINT32: 'uint32'}
OPNAME = {v: k for k, v in vars(S.BuiltinOperator).items() if isinstance(v, int)}


class Model:
    def __init__(self, data):
        self.m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(bytearray(data), 0))
        self.g = self.m.subgraphs[0]
        self.ops = self.g.operators

    def opname(self, op):
        c = self.m.operatorCodes[op.opcodeIndex]
        code = max(c.builtinCode, c.deprecatedBuiltinCode)
        return OPNAME[code] if code != S.BuiltinOperator.CUSTOM else c.customCode.decode() if isinstance(c.customCode, bytes) else str(c.customCode)

    def version(self, op):
        return self.m.operatorCodes[op.opcodeIndex].version

    def name(self, i):
        n = self.g.tensors[i].name
        return n.decode() if isinstance(n, bytes) else n

    def dtype(self, i):
        return NP[self.g.tensors[i].type]

    def shape(self, i):
        s = self.g.tensors[i].shape
        return tuple(int(v) for v in s) if s is not None else ()

    def const(self, i):
        """Value of a constant tensor, else None."""
        if i < 0:
            return None
        t = self.g.tensors[i]
        b = self.m.buffers[t.buffer].data
        if t.buffer == 0 or b is None or (len(b) == 0 and int(np.prod(self.shape(i))) != 0):
            return None
        return np.frombuffer(bytes(bytearray(b)), dtype=self.dtype(i)).reshape(self.shape(i))

    def quant(self, i):
        """(scales, zero points, axis) or None"""
        q = self.g.tensors[i].quantization
        if q is None or q.scale is None or len(q.scale) == 0:
            return None
        return np.asarray(q.scale, 'float64'), np.asarray(q.zeroPoint, 'int64'), int(q.quantizedDimension)

    def put(self, i, a):
        """Replaces a constant by a float32 one."""
        t = self.g.tensors[i]
        b = S.BufferT()
        b.data = np.frombuffer(np.ascontiguousarray(a, 'float32').tobytes(), 'uint8')
        self.m.buffers.append(b)
        t.buffer = len(self.m.buffers) - 1
        t.type = S.TensorType.FLOAT32
        t.quantization = None

    def pack(self):
        b = flatbuffers.Builder(1024)
        b.Finish(self.m.Pack(b), b'TFL3')
        return bytes(b.Output())
