"""Which flows each formulation of flows is built for."""


def SimpleFlowBlock(flow):
    return True


def InvestmentFlowBlock(flow):
    return flow.investment is not None and flow.nonconvex is None


def NonConvexFlowBlock(flow):
    return flow.investment is None and flow.nonconvex is not None


def InvestNonConvexFlowBlock(flow):
    return flow.investment is not None and flow.nonconvex is not None
