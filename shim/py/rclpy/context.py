class Context:
    pass
