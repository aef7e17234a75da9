"""Serializable objects whose class names are those of vlib.ser, with other layouts, and one that nests."""
from vlib import ser


class Small:
    """five bytes: a big-endian number and a byte"""

    def __init__(self, v=0):
        self.v = v

    def Serialize(self, writer):
        writer.WriteUInt32(self.v >> 8, endian='>')
        writer.WriteUInt8(self.v & 255)

    def Deserialize(self, reader):
        self.v = reader.ReadUInt32(endian='>') << 8 | reader.ReadUInt8()

    def key(self):
        return self.v


class Box:
    """holds two arrays of its own, of classes of one name"""

    def __init__(self, a=(), b=()):
        self.a, self.b = a, b

    def Serialize(self, writer):
        writer.WriteSerializableArray(self.a)
        writer.WriteSerializableArray(self.b)
        writer.WriteUInt8(0x5a)

    def Deserialize(self, reader):
        self.a = reader.ReadSerializableArray('vlib.ser.Small')
        self.b = reader.ReadSerializableArray('vlib.ser2.Small')
        if reader.ReadUInt8() != 0x5a:
            raise ValueError('box not closed')

    def key(self):
        return [(type(e) is ser.Small, e.v) for e in self.a], [(type(e) is Small, e.v) for e in self.b]
