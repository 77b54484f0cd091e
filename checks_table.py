from props import TABLE  # noqa: F401
