"""What the table of the values of a solved model has in it."""
from oemof.network.network import Entity
from pyomo.core.base.piecewise import IndexedPiecewise
from pyomo.core.base.var import Var


def about(variable, i):
    """the nodes and time index a value is about, or else its name"""
    if isinstance(i, tuple):
        return i
    if isinstance(i, Entity):
        return (i,)
    return (str(variable).split(".")[0], str(variable).split(".")[-1], i)


# (what it is about, time step, name, value)
def create_dataframe(om):
    rows = set()
    for data in om.component_data_objects(Var):
        v = data.parent_component()
        if isinstance(v.parent_block().parent_component(), IndexedPiecewise):
            continue
        for i in v._index_set:
            x = v[i].value
            if x is None:
                continue
            name = str(v).split(".")[-1]
            what = about(v, i)
            if all(isinstance(n, Entity) for n in what):
                rows.add((what, 0, name, x))
            else:
                rows.add((what[:-1], what[-1], name, x))
    return rows
