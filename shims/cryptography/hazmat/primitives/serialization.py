class Encoding: X962="X962"; Raw="Raw"
class PublicFormat: CompressedPoint="C"; Raw="Raw"; UncompressedPoint="U"
