import yaml, os
def _load_file(d, f):
    with open(os.path.join(d, f)) as fh:
        return yaml.safe_load(fh)
