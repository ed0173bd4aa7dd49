"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "diffstar/"
P = "diffstar/diffstarpop/"
JX = "symbolic execution of the jaxpr of the real functions, obligations decided by z3 over reals"
RE = "exact real arithmetic (rounding excluded), inputs symbolic inside the stated boxes; transcendental functions are uninterpreted with sound enclosures and monotonicity facts; diffmah, jax tracing and XLA are trusted."

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique=JX, note=RE, na=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


prop("C01", "SFH parameters stay inside their documented ranges, monotonically",
     "Whatever the unbounded parameters, the bounded star-formation-history parameters derived from them lie in their documented ranges, with the rejuvenated level between the quenching floor and the main sequence. Each bounded parameter never decreases when its own unbounded parameter grows and ignores the others (the rejuvenation level also depends on the drop). The population, component and single-parameter transforms give the same values, and the default parameters are the images of the unbounded defaults.",
     ["inputs"], "all 8 unbounded parameters, any value in a wide box; populations of galaxies",
     "Unit tests sample random parameter vectors; the ranges must hold for every vector an optimiser or a Monte Carlo draw can reach.",
     [D + "defaults.py", D + "kernels/main_sequence_kernels.py", D + "kernels/quenching_kernels.py", D + "utils.py"],
     [("get_bounded_diffstar_params", D + "defaults.py"), ("_get_bounded_sfr_params", D + "kernels/main_sequence_kernels.py"), ("_get_bounded_q_params", D + "kernels/quenching_kernels.py"), ("_sigmoid", D + "utils.py")])
prop("C02", "Bounded and unbounded SFH parameters are mutual inverses",
     "Converting unbounded star-formation-history parameters to bounded ones and back recovers them, and converting any bounded parameters strictly inside their ranges to unbounded ones and back recovers them. Every field keeps its own name and slot, the unbounded values are finite, and component-wise, scalar and population conversions agree with the full conversion.",
     ["inputs"], "all 8 parameters symbolic, both directions; populations",
     "Tests check the round trip at the defaults and a few random draws; a mismatch of one bound or one slot shows only for some parameters.",
     [D + "defaults.py", D + "kernels/main_sequence_kernels.py", D + "kernels/quenching_kernels.py", D + "utils.py"],
     [("get_unbounded_diffstar_params", D + "defaults.py"), ("_get_unbounded_q_params", D + "kernels/quenching_kernels.py"), ("_inverse_sigmoid", D + "utils.py")])
prop("C03", "Population-model parameters: ranges, inverses, and name bookkeeping",
     "Every population-model parameter obtained from unbounded values lies in its declared range, and the bounded and unbounded forms are mutual inverses field by field. No field is lost, duplicated, reordered or attached to the wrong name by the merge of the component models, and overriding a subset of parameters changes exactly that subset and leaves the defaults elsewhere. The shipped defaults lie in their ranges and agree between the two forms.",
     ["inputs", "configurations"], "every population parameter symbolic; every field; arbitrary subsets overridden",
     "Tests sample parameter vectors near the defaults; a swapped pair of bounds or names stays invisible there.",
     [P + "kernels/sfh_pdf_mgash.py", P + "kernels/satquenchpop_model.py", P + "kernels/defaults_mgash.py", P + "param_utils.py"],
     [("get_bounded_diffstarpop_params / get_unbounded_diffstarpop_params", P + "kernels/defaults_mgash.py"), ("get_bounded_sfh_pdf_params", P + "kernels/sfh_pdf_mgash.py"), ("get_bounded_satquenchpop_params", P + "kernels/satquenchpop_model.py"), ("get_all_params_from_varied", P + "param_utils.py")])
prop("C04", "Main-sequence star formation law",
     "The main-sequence star formation rate is the baryon fraction times the halo mass at that time times ten to the log-efficiency, which is the efficiency at the critical mass plus a slope, going smoothly from the low-mass to the high-mass index, times the distance in log mass from the critical mass. It is positive and finite, proportional to the baryon fraction and to the normalisation, equals its normalisation at the critical mass, and is the same for a table of times as for each time alone.",
     ["inputs"], "all galaxy and halo parameters over their ranges, times 0.05..20 Gyr, baryon fraction 0.01..1",
     "Tests compare a handful of stored values or only check shapes and finiteness.",
     [D + "kernels/main_sequence_kernels.py"],
     [("_sfr_eff_plaw", D + "kernels/main_sequence_kernels.py"), ("_lax_ms_sfh_scalar_kern / sfh_ms_kernel", D + "kernels/main_sequence_kernels.py")])
prop("C05", "Shape of the quenching function",
     "The quenching factor is exactly one before the event starts, falls without recovering to its floor (ten to the drop) at the event centre, rises without falling again to the rejuvenated level by the end of the event, and never leaves the interval between floor and one. The halfway points lie a quarter of the duration from the centre, the shape is symmetric in log time when rejuvenation is complete, a zero drop means no quenching, and the unbounded-parameter form is the same function.",
     ["inputs"], "log time -3..3, all quenching parameters over their ranges, floor at most the rejuvenated level",
     "Tests look at the default parameters and a few times; ordering and plateaus must hold for every duration, centre, drop and rejuvenation.",
     [D + "kernels/quenching_kernels.py"],
     [("_quenching_kern", D + "kernels/quenching_kernels.py"), ("_jax_partial_u_tw_kern", D + "kernels/quenching_kernels.py")])
prop("C06", "The SFH is the floored product of quenching and main sequence",
     "The star formation history of a galaxy is, at each time of the table, the larger of the floor and the main-sequence rate at that time multiplied by the quenching factor at that time. Quenching never raises it above the main sequence, an unquenched galaxy stays on the main sequence, and each entry depends only on its own time, in any order and any table length; asking for the mass history too changes nothing.",
     ["inputs"], "all galaxy and halo parameters over their ranges, times in 0.01..20 Gyr in any order",
     "Tests check shapes, finiteness and consistency on a few random galaxies.",
     [D + "sfh_model.py", D + "kernels/history_kernel_builders.py"],
     [("calc_sfh_singlegal", D + "sfh_model.py"), ("_sfh_singlegal_kern", D + "kernels/history_kernel_builders.py")])
prop("C07", "A population call gives each galaxy exactly what it gets alone",
     "For star formation histories, stellar mass histories, cumulative mass and the gas model, row i of the population result equals the result of the single-galaxy call on galaxy i's parameters, whatever the other galaxies are. There is one row per galaxy and one column per time.",
     ["inputs"], "populations of galaxies with every parameter symbolic",
     "Tests compare populations of random galaxies at one tolerance; cross-talk for particular values is not sampled.",
     [D + "sfh_model.py", D + "mgas_model.py", D + "kernels/history_kernel_builders.py", D + "utils.py"],
     [("calc_sfh_galpop", D + "sfh_model.py"), ("calc_mgas_galpop", D + "mgas_model.py"), ("cumulative_mstar_formed_galpop", D + "utils.py")])
prop("C08", "Cumulative stellar mass is the time integral of the SFH",
     "The cumulative mass formed is the trapezoidal integral of the star formation rate over the time table from the birth epoch, in solar masses, for one galaxy and for populations. It is linear in the history, never decreases for a non-negative history, is not affected by later star formation or by extending the table, and is what the history calculation returns as the mass history.",
     ["inputs"], "increasing time tables in 0.01..20 Gyr, any star formation rates in 0..1e4",
     "Tests use one or two tables and tolerances of a per cent.",
     [D + "utils.py", D + "sfh_model.py"],
     [("cumulative_mstar_formed", D + "utils.py"), ("cumtrapz", D + "utils.py")])
prop("C09", "The gas budget closes",
     "The gas mass plus the stellar mass formed equals the baryon fraction times the halo mass at every time, the reported gas rate is the finite difference of the gas mass over the time steps per year, and the reported histories are those of the star formation model. When the cosmology is left out, the documented default values are used, for one galaxy and for populations.",
     ["inputs"], "increasing times, every galaxy, halo and cosmology parameter symbolic",
     "Tests check shapes and finiteness.",
     [D + "mgas_model.py", D + "utils.py"],
     [("calc_mgas_singlegal / calc_mgas_galpop", D + "mgas_model.py"), ("_jax_get_dt_array", D + "utils.py")])
prop("C10", "Delayed-average star formation rate",
     "For a non-decreasing mass history, the delayed-average rate times the delay is the mass formed during the delay, with mass interpolated linearly in time and held at its first value before the table begins. It is never negative for any history, recovers a constant rate, does not change under a constant mass offset, and is zero at the first time.",
     ["inputs"], "increasing time tables, any masses, delays 0.01..5 Gyr including delays longer than the table",
     "Tests use one table and one delay.",
     [D + "utils.py"], [("compute_fstar", D + "utils.py")])
prop("C11", "Time-step arrays tile the time axis",
     "Each interior time step spans from midpoint to midpoint of its neighbours and the steps of an increasing table are positive and together cover it; uniform tables have uniform steps, and shifting or scaling the table shifts or scales nothing else. The two implementations agree for every table.",
     ["inputs"], "tables of arbitrary values (and increasing ones for positivity)",
     "Tests compare the two implementations on one table.",
     [D + "utils.py"], [("_get_dt_array / _jax_get_dt_array", D + "utils.py")])
prop("C12", "Table interpolation is linear between the bracketing knots",
     "Interpolating a table at a point with its bracketing index gives the linear interpolation between the two bracketing knots, never leaves their range inside the bracket, and is exact at the knots. With a searched index it agrees with ordinary table interpolation, and the population form equals row-by-row interpolation.",
     ["inputs"], "increasing knots, arbitrary ordinates, abscissae and indices",
     "Tests use one smooth table.",
     [D + "utils.py", P + "utils.py"], [("jax_np_interp", D + "utils.py"), ("jax_np_interp_vmap", P + "utils.py")])
prop("C13", "Triweight cumulative kernel and bin weights form a distribution",
     "The triweight cumulative kernel is the integral of the triweight density: zero more than three widths below the centre, one more than three widths above, monotone, symmetric and differentiable. Bin weights are non-negative, at most one, additive over adjacent bins and one for a bin that contains the whole support; every copy of the kernel in the package obeys this.",
     ["inputs"], "position and centre in -100..100, width 1e-3..50, all bins",
     "Tests evaluate the kernels on one grid.",
     [D + "utils.py", P + "utils.py", P + "sumstats/diffndhist.py"],
     [("tw_cuml_jax_kern", D + "utils.py"), ("_tw_cuml_lax_kern", P + "utils.py"), ("_tw_bin_weight_lax_kern", P + "sumstats/diffndhist.py")])
prop("C14", "Differentiable histograms conserve counts; mean relations are averages",
     "Differentiable histogram counts are non-negative, additive over adjacent bins, at most the number of points and independent of their order, and the weighted histogram is linear in the weights and reduces to the counts for unit weights; in several dimensions the weight of a point is the product over dimensions. The stellar-to-halo-mass relation is the weighted mean over galaxies: between the smallest and largest value, and exact for equal galaxies.",
     ["inputs"], "symbolic positions, widths, weights and bin edges for a few points and bins",
     "Tests use one random point set and check shapes.",
     [P + "sumstats/diffndhist.py", P + "sumstats/smhm.py"],
     [("tw_ndhist / tw_ndhist_weighted", P + "sumstats/diffndhist.py"), ("compute_smhm", P + "sumstats/smhm.py")])
prop("C15", "Quenched fractions are probabilities; satellites quench at least as often",
     "Central and satellite quenched fractions lie in [0, 1] for every galaxy and every population parameter in its range, and infall never lowers the quenching probability, whose boost grows with time since infall and vanishes for the central sentinel values. Fractions follow their documented sigmoid trend with mass and peak time; central fractions ignore satellite parameters and infall history, and satellite fractions ignore central parameters.",
     ["inputs"], "all fraction and infall parameters over their ranges, mass 8..17, peak time 0.1..20, any infall history",
     "Tests sample random halos at the default parameters.",
     [P + "kernels/sfh_pdf_mgash.py", P + "kernels/satquenchpop_model.py", P + "kernels/diffstarpop_mgash.py"],
     [("_frac_quench_cen / _frac_quench_sat", P + "kernels/sfh_pdf_mgash.py"), ("get_qprob_sat", P + "kernels/satquenchpop_model.py"), ("_diffstarpop_means_covs", P + "kernels/diffstarpop_mgash.py")])
prop("C16", "Population means and covariances are valid and follow their trends",
     "For every halo and every population parameter in its range, the covariances are diagonal with strictly positive variances equal to the squared clipped widths, and the means follow their documented mass and peak-time trends, clipped to their bounding values. Main-sequence moments ignore quenched-sequence parameters and the reverse, infall history changes none of them, and covariance and correlation matrices convert into each other without loss.",
     ["inputs"], "all mean, width and shift parameters over their ranges, mass 8..17, peak time 0.1..20; correlation matrices of small size",
     "Tests check finiteness of moments at random masses with the default parameters.",
     [P + "kernels/sfh_pdf_mgash.py", P + "kernels/diffstarpop_mgash.py", P + "utils.py"],
     [("_get_mean_u_params_* / _get_covariance_*", P + "kernels/sfh_pdf_mgash.py"), ("covariance_from_correlation", P + "utils.py")])
prop("C17", "Clipped lines stay inside their bounds and follow the line between",
     "A smoothly clipped line is finite and within its bounds for every slope (zero included), pivot and intercept strictly inside the bounds. Away from the bounds it follows the unclipped line, beyond them it stays at the bound, it passes through its reference point, and a flat line stays flat.",
     ["inputs"], "abscissa 5..18, slopes -20..20 including 0, intercepts inside bounds up to 40 apart",
     "Tests use a few slopes and compare to loose tolerances; steep, flat and near-bound lines are not sampled.",
     [P + "utils.py", P + "kernels/sfh_pdf_mgash.py"], [("smoothly_clipped_line", P + "utils.py"), ("line_model", P + "kernels/sfh_pdf_mgash.py")])

exec(open(os.path.join(ROOT, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta2.py")) else None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["pid"], "quick_cmd": f"./check.sh {p['pid']}", "thorough_cmd": f"./check.sh {p['pid']} --thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        } for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["pid"], "reason": p["na"]} for p in PROPS if p["na"]],
    }
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
