"""Nothing of numpy is used by the code under test beyond importing it."""
