class PythonLaunchDescriptionSource:
    def __init__(self, *a, **k):
        pass
