"""stand-in for the optional mock reader; the analysis replaces load_mock_from_binaries"""
