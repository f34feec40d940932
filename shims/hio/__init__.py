class HioError(Exception): pass
class ValidationError(HioError): pass
class VersionError(ValidationError): pass
