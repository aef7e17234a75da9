"""Serializable objects of the harness, named by path in ReadSerializableArray calls."""


class Item:
    """number + text + bytes, each with its own length"""

    def __init__(self, n=0, s=b'', b=b''):
        self.n, self.s, self.b = n, s, b

    def Serialize(self, writer):
        writer.WriteUInt32(self.n)
        writer.WriteVarString(self.s)
        writer.WriteUInt16(len(self.b))
        writer.WriteBytes(self.b, unhex=False)

    def Deserialize(self, reader):
        self.n = reader.ReadUInt32()
        self.s = reader.ReadVarString()
        self.b = reader.SafeReadBytes(reader.ReadUInt16())

    def key(self):
        return self.n, bytes(self.s), bytes(self.b)


class Small:
    """eight bytes that must all be there"""

    def __init__(self, v=0):
        self.v = v

    def Serialize(self, writer):
        writer.WriteUInt64(self.v)

    def Deserialize(self, reader):
        self.v = reader.ReadUInt64()

    def key(self):
        return self.v


class Empty:
    """takes no bytes"""

    def Serialize(self, writer):
        pass

    def Deserialize(self, reader):
        pass

    def key(self):
        return 0
