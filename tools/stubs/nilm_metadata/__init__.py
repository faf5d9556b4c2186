"""minimal stand-in so that nilmtk can be imported"""
def recursively_update_dict(dict_to_update, source_dict):
    for key_from_source, value_from_source in source_dict.items():
        try:
            value_in = dict_to_update[key_from_source]
        except KeyError:
            dict_to_update[key_from_source] = value_from_source
        else:
            if isinstance(value_from_source, dict):
                assert isinstance(value_in, dict)
                recursively_update_dict(value_in, value_from_source)
            elif isinstance(value_from_source, list):
                value_in.extend(value_from_source)
            else:
                dict_to_update[key_from_source] = value_from_source
def get_appliance_types():
    return {n: {'type': n, 'n_ancestors': 1, 'categories': {'traditional': 'cold'}} for n in ('fridge', 'kettle', 'light', 'television', 'unknown')}
def convert_yaml_to_hdf5(*a, **k): pass
def save_yaml_to_datastore(*a, **k): pass
