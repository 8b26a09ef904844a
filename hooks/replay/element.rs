// nothing exposed
