"""Documented formulation of the component blocks (evaluated symbolically,
never imported)."""


def ConverterBlock(b, GROUP):
    for t in M.TIMESTEPS:
        for n in GROUP:
            for i in n.inputs:
                for o in n.outputs:
                    require(
                        M.flow[i, n, t] * n.conversion_factors[o][t]
                        == M.flow[n, o, t] * n.conversion_factors[i][t],
                        "converter",
                    )


def LinkBlock(b, GROUP):
    for t in M.TIMESTEPS:
        for n in GROUP:
            for k in n.conversion_factors:
                require(
                    M.flow[n, k[1], t]
                    == n.conversion_factors[k][t] * M.flow[k[0], n, t],
                    "link",
                )


def OffsetConverterBlock(b, GROUP):
    for n in GROUP:
        for t in M.TIMESTEPS:
            r = n._reference_node
            if n._reference_node_at_input:
                ref = M.flow[r, n, t]
                idx = (r, n, t)
            else:
                ref = M.flow[n, r, t]
                idx = (n, r, t)
            try:
                nominal = M.InvestNonConvexFlowBlock.status_nominal[idx]
            except (AttributeError, KeyError):
                nominal = M.NonConvexFlowBlock.status_nominal[idx]
            for i in n.inputs:
                if i != r:
                    require(
                        M.flow[i, n, t]
                        == ref * n.conversion_factors[i][t]
                        + nominal * n.normed_offsets[i][t],
                        "offset",
                    )
            for o in n.outputs:
                if o != r:
                    require(
                        M.flow[n, o, t]
                        == ref * n.conversion_factors[o][t]
                        + nominal * n.normed_offsets[o][t],
                        "offset",
                    )


def ExtractionTurbineCHPBlock(b, GROUP):
    for n in GROUP:
        inflow = list(n.inputs)[0]
        flex = list(n.conversion_factor_full_condensation)[0]
        main = [o for o in n.outputs if o == flex][0]
        tapped = [o for o in n.outputs if o != flex][0]
        for t in M.TIMESTEPS:
            eta_m = n.conversion_factors[main][t]
            eta_t = n.conversion_factors[tapped][t]
            eta_c = n.conversion_factor_full_condensation[main][t]
            beta = (eta_c - eta_m) / eta_t
            require(
                M.flow[inflow, n, t]
                == (M.flow[n, main, t] + M.flow[n, tapped, t] * beta) / eta_c,
                "extraction",
            )
            require(
                M.flow[n, main, t]
                >= M.flow[n, tapped, t] * eta_m / eta_t,
                "extraction",
            )


def GenericCHPBlock(b, GROUP):
    for n in GROUP:
        bf = list(n.fuel_input.keys())[0]
        be = list(n.electrical_output.keys())[0]
        bh = list(n.heat_output.keys())[0]
        fuel = list(n.fuel_input.values())[0].custom_properties
        elec = list(n.electrical_output.values())[0].custom_properties
        heat = list(n.heat_output.values())[0].custom_properties
        for t in M.TIMESTEPS:
            for v in (b.H_F[n, t], b.H_L_FG_max[n, t], b.H_L_FG_min[n, t],
                      b.P_woDH[n, t], b.P[n, t], b.Q[n, t]):
                variable(v)
                require(v >= 0, "chp")
            variable(b.Y[n, t])
            binary(b.Y[n, t])
            require(b.H_F[n, t] == M.flow[bf, n, t], "chp")
            require(b.Q[n, t] == M.flow[n, bh, t], "chp")
            require(b.P[n, t] == M.flow[n, be, t], "chp")
            a0, a1 = n.alphas[0][t], n.alphas[1][t]
            require(
                b.H_F[n, t] == a0 * b.Y[n, t] + a1 * b.P_woDH[n, t],
                "chp",
            )
            require(
                b.H_F[n, t]
                == a0 * b.Y[n, t]
                + a1 * (b.P[n, t] + n.beta[t] * b.Q[n, t]),
                "chp",
            )
            require(
                b.H_F[n, t]
                <= b.Y[n, t] * elec["P_max_woDH"][t]
                / elec["Eta_el_max_woDH"][t],
                "chp",
            )
            require(
                b.H_F[n, t]
                >= b.Y[n, t] * elec["P_min_woDH"][t]
                / elec["Eta_el_min_woDH"][t],
                "chp",
            )
            require(
                b.H_L_FG_max[n, t]
                == b.H_F[n, t] * fuel["H_L_FG_share_max"][t],
                "chp",
            )
            if n.back_pressure is True:
                require(
                    b.P[n, t] + b.Q[n, t] + b.H_L_FG_max[n, t]
                    + heat["Q_CW_min"][t] * b.Y[n, t]
                    == b.H_F[n, t],
                    "chp",
                )
            else:
                require(
                    b.P[n, t] + b.Q[n, t] + b.H_L_FG_max[n, t]
                    + heat["Q_CW_min"][t] * b.Y[n, t]
                    <= b.H_F[n, t],
                    "chp",
                )
            if fuel.get("H_L_FG_share_min", None) is not None:
                require(
                    b.H_L_FG_min[n, t]
                    == b.H_F[n, t] * fuel["H_L_FG_share_min"][t],
                    "chp",
                )
                require(
                    b.P[n, t] + b.Q[n, t] + b.H_L_FG_min[n, t]
                    + heat["Q_CW_min"][t] * b.Y[n, t]
                    >= b.H_F[n, t],
                    "chp",
                )


def GenericCAESBlock(b, GROUP):
    for n in GROUP:
        P = n.params
        el_in = list(n.electrical_input.keys())[0]
        fuel = list(n.fuel_input.keys())[0]
        el_out = list(n.electrical_output.keys())[0]
        for t in M.TIMESTEPS:
            for v in (
                b.cmp_p[n, t], b.cmp_p_max[n, t], b.cmp_q_out_sum[n, t],
                b.cmp_q_waste[n, t], b.exp_p[n, t], b.exp_p_max[n, t],
                b.exp_q_in_sum[n, t], b.exp_q_fuel_in[n, t],
                b.exp_q_add_in[n, t], b.cav_level[n, t], b.cav_e_in[n, t],
                b.cav_e_out[n, t], b.tes_level[n, t], b.tes_e_in[n, t],
                b.tes_e_out[n, t], b.exp_p_spot[n, t], b.cmp_p_spot[n, t],
            ):
                variable(v)
                require(v >= 0, "caes")
            for v in (b.cmp_st[n, t], b.exp_st[n, t]):
                variable(v)
                binary(v)
            before = 0 if t == 0 else b.cav_level[n, t - 1]
            dt = M.timeincrement[t]
            # compression
            require(b.cmp_p[n, t] == M.flow[el_in, n, t], "caes")
            require(b.cmp_p_max[n, t]
                    == P["cmp_p_max_m"] * before + P["cmp_p_max_b"], "caes")
            require(b.cmp_p[n, t] <= b.cmp_p_max[n, t], "caes")
            require(b.cmp_p[n, t] >= P["cmp_p_min"] * b.cmp_st[n, t], "caes")
            require(b.cmp_p[n, t]
                    <= (P["cmp_p_max_m"] * P["cav_level_max"]
                        + P["cmp_p_max_b"]) * b.cmp_st[n, t], "caes")
            require(b.cmp_q_out_sum[n, t]
                    == P["cmp_q_out_m"] * b.cmp_p[n, t]
                    + P["cmp_q_out_b"] * b.cmp_st[n, t], "caes")
            require(b.cmp_q_out_sum[n, t]
                    == b.cmp_q_waste[n, t] + b.tes_e_in[n, t], "caes")
            require(b.cmp_q_waste[n, t] * P["cmp_q_tes_share"]
                    == b.tes_e_in[n, t] * (1 - P["cmp_q_tes_share"]), "caes")
            # expansion
            require(b.exp_p[n, t] == M.flow[n, el_out, t], "caes")
            require(b.exp_p_max[n, t]
                    == P["exp_p_max_m"] * before + P["exp_p_max_b"], "caes")
            require(b.exp_p[n, t] <= b.exp_p_max[n, t], "caes")
            require(b.exp_p[n, t] >= P["exp_p_min"] * b.exp_st[n, t], "caes")
            require(b.exp_p[n, t]
                    <= (P["exp_p_max_m"] * P["cav_level_max"]
                        + P["exp_p_max_b"]) * b.exp_st[n, t], "caes")
            require(b.exp_q_in_sum[n, t]
                    == P["exp_q_in_m"] * b.exp_p[n, t]
                    + P["exp_q_in_b"] * b.exp_st[n, t], "caes")
            require(b.exp_q_fuel_in[n, t] == M.flow[fuel, n, t], "caes")
            require(b.exp_q_in_sum[n, t]
                    == b.exp_q_fuel_in[n, t] + b.tes_e_out[n, t]
                    + b.exp_q_add_in[n, t], "caes")
            require(P["exp_q_tes_share"] * b.exp_q_fuel_in[n, t]
                    == (1 - P["exp_q_tes_share"])
                    * (b.exp_q_add_in[n, t] + b.tes_e_out[n, t]), "caes")
            # cavern
            require(b.cav_e_in[n, t]
                    == P["cav_e_in_m"] * b.cmp_p[n, t]
                    + P["cav_e_in_b"] * b.cmp_st[n, t], "caes")
            require(b.cav_e_out[n, t]
                    == P["cav_e_out_m"] * b.exp_p[n, t]
                    + P["cav_e_out_b"] * b.exp_st[n, t], "caes")
            require(P["cav_eta_temp"] * b.cav_level[n, t]
                    == before + dt * (b.cav_e_in[n, t] - b.cav_e_out[n, t]),
                    "caes")
            require(b.cav_level[n, t] <= P["cav_level_max"], "caes")
            # heat storage
            heat = 0 if t == 0 else b.tes_level[n, t - 1]
            require(b.tes_level[n, t]
                    == heat + dt * (b.tes_e_in[n, t] - b.tes_e_out[n, t]),
                    "caes")
            require(b.tes_level[n, t] <= P["tes_level_max"], "caes")


def PiecewiseLinearConverterBlock(b, GROUP):
    for n in GROUP:
        i = list(n.inputs.keys())[0]
        o = list(n.outputs.keys())[0]
        ys = [n.conversion_function(x) for x in n.in_breakpoints]
        for t in M.TIMESTEPS:
            variable(b.inflow[n, t])
            variable(b.outflow[n, t])
            require(b.inflow[n, t] == M.flow[i, n, t], "piecewise")
            require(b.outflow[n, t] == M.flow[n, o, t], "piecewise")
            require(b.inflow[n, t] >= min(n.in_breakpoints), "piecewise")
            require(b.inflow[n, t] <= max(n.in_breakpoints), "piecewise")
            require(b.outflow[n, t] >= min(ys), "piecewise")
            require(b.outflow[n, t] <= max(ys), "piecewise")
            require(
                b.outflow[n, t]
                == opaque("piecewise", b.inflow[n, t],
                          n.conversion_function(symbol("spec:x")),
                          n.in_breakpoints),
                "piecewise",
            )


# ------------------------------------------------- fuel use of GenericCHP
def alphas(self):
    """fuel = alpha0 + alpha1 * power goes through the points of minimal and
    of maximal power, given by power and efficiency at every time step"""
    flow = list(self.electrical_output.values())[0]
    a, b = [], []
    for t in range(len(flow.custom_properties["P_min_woDH"])):
        low = flow.custom_properties["P_min_woDH"][t]
        high = flow.custom_properties["P_max_woDH"][t]
        f_low = low / flow.custom_properties["Eta_el_min_woDH"][t]
        f_high = high / flow.custom_properties["Eta_el_max_woDH"][t]
        slope = (f_high - f_low) / (high - low)
        a.append(f_low - slope * low)
        b.append(slope)
    return [a, b]
