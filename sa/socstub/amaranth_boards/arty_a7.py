"""Board definitions are not analysed."""
