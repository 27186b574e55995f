class FakeUnsupported(Exception):
    """A stand-in library was asked for something it does not model."""
