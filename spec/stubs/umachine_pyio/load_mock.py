"""signature of the optional mock reader"""


def load_mock_from_binaries(subvols, root_dirname=None, galprops=None):
    raise NotImplementedError
