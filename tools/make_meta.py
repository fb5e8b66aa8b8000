"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/ripplegw/waveforms/"
I = "src/ripplegw/__init__.py"
ALLW = [W + x for x in ("IMRPhenomD.py", "IMRPhenomD_utils.py", "IMRPhenomXAS.py", "IMRPhenomX_utils.py", "IMRPhenomPv2.py", "IMRPhenomPv2_utils.py", "TaylorF2.py",
                        "IMRPhenomD_NRTidalv2.py", "IMRPhenom_tidal_utils.py", "IMRPhenomD_QNMdata.py")]
DP = "(double precision)"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), technique, note))


prop("C01", "Mass, spin and ISCO conversions follow their definitions everywhere",
     "For any positive component masses, however extreme or nearly equal, the conversion to chirp mass and symmetric mass ratio gives the defined values with eta in (0, 1/4], is "
     "symmetric under exchange, and converting back gives finite masses, heavier first, whose sum and difference are those of (Mc, eta). The effective spin is the mass-weighted mean "
     "of the two spins and the ISCO frequency is c^3/(6^(3/2) pi G m), for scalars and arrays alike.",
     ["inputs"], "all masses (1e-6 to 1e12 in any unit, ratios 1e-6 to 1 including equal within one rounding), spins in [-1, 1], scalars / arrays / jit / vmap, double precision",
     "The tests convert one or two hand-picked pairs; cancellation at nearly equal masses (eta above 1/4, NaN square roots) shows only for particular bit patterns.",
     [I], [("ms_to_Mc_eta / Mc_eta_to_ms", I + ": ms_to_Mc_eta, Mc_eta_to_ms"), ("effective spin, ISCO", I + ": get_chi_eff, get_f_isco")],
     ["return values of ms_to_Mc_eta, Mc_eta_to_ms, get_chi_eff, get_f_isco"],
     "runtime monitor: calls observed against extended-precision definitions, stratified random workload",
     "every call on the workload compared with 80-bit references; trusts numpy longdouble")

prop("C02", "Tidal deformability conversions agree with the published relation and invert",
     "For any two deformabilities and masses (heavier first), the conversion to (lambda tilde, delta lambda tilde) gives the values of Wade et al. 2014, both when given the masses and "
     "when given the mass ratio. Converting back returns the two deformabilities, up to the conditioning of the relation, and never NaN or infinity.",
     ["inputs"], "deformabilities 0 to 1e4 incl. zero and one-sided, mass ratios 0.05 to 1 incl. equal and nearly equal masses, all four conversion functions, scalar / array / jit / vmap, double precision",
     "Existing tests use a few BNS values; errors in one coefficient of one of the four near-copies, or NaN at equal masses, need other inputs.",
     [I], [("four conversion functions", I + ": lambdas_to_lambda_tildes, lambdas_to_lambda_tildes_from_q, lambda_tildes_to_lambdas, lambda_tildes_to_lambdas_from_q")],
     ["return values of the four conversions"], "runtime monitor: calls observed against extended-precision published relations and round trips",
     "workload-based; tolerance follows the conditioning of the inverse at equal masses")

prop("C03", "Parameter samplers draw in range, ordered, uniform and reproducibly",
     "For any pair of ranges, key and sample count, the samplers return an (n, 2) array: (chirp mass, eta) each uniform within its own range, or two masses drawn uniformly from their "
     "ranges and returned larger first. The same key gives the same sample and other keys give other, independent samples.",
     ["inputs"], "ranges overlapping, disjoint, reversed, degenerate, negative, wide, as tuples, lists or arrays; n from 0 to thousands; any key (double precision)",
     "Distribution and ordering are statements about every key and range; the suite does not test the samplers' distribution.",
     [I], [("samplers", I + ": get_M_eta_sampler, get_m1_m2_sampler")], ["returned arrays"],
     "runtime monitor: statistical (Kolmogorov distance, moments) and invariant monitors over many keys and ranges", "fixed keys, six-sigma bounds: deterministic verdict")

prop("C04", "Noise curves interpolate their tables and are infinite outside them",
     "Each tabulated detector PSD equals the linear interpolation in frequency of its distributed table (squared if the table holds amplitude densities), is infinite outside the table "
     "and next to infinite samples, and is never NaN, zero or negative; the LIGO-I curve is its published formula above 40 Hz and infinite below. The advertised frequency range is the "
     "table's, and the value depends only on the frequency, not on the shape, order or kind of array or on tracing.",
     ["inputs"], "any frequency incl. table knots and their floating-point neighbours, band edges, zero, negative, infinite; array, scalar, 2-d, jit, vmap; seven curves, double precision",
     "The tests evaluate few frequencies; knots, edges and infinite samples are measure-zero inputs.",
     ["src/ripplegw/noise.py"], [("Sn_* and f_range_*", "src/ripplegw/noise.py")], ["Sn_*(f), f_range_*"],
     "runtime monitor: outputs compared with an independent copy of the tables at knots, neighbours, edges and random frequencies",
     "trusts data/psd.npz (a copy of the tables at the pinned commit)")

prop("C05", "The phase-maximised inner product is the normalised overlap modulus",
     "For any strains, noise curve, evenly spaced grid and time offset, the result is |<h1|h2>|/sqrt(<h1|h1><h2|h2>) with the offset applied as a relative time shift: between 0 and 1, "
     "1 for proportional strains, symmetric (with the offset negated), and unchanged by constant phases and scales of the strains or of the noise. Infinite noise bins contribute nothing, "
     "and the form that takes amplitude and phase functions gives the same value as the form that takes arrays.",
     ["inputs"], "grids starting anywhere incl. zero, strains random / chirp / model / sparse over 5 decades, noise with lines and infinite bins, offsets of both signs, double precision",
     "Invariances quantify over all strains and grids; the suite evaluates one pair.",
     [I], [("inner product", I + ": get_phase_maximized_inner_product, get_phase_maximized_inner_product_arr")], ["return values"],
     "runtime monitor: values observed against the extended-precision definition, metamorphic relations", "workload-based")

prop("C06", "The match is the overlap maximised over phase and the FFT's time grid",
     "On any grid f_k = k df from k0 to k1 the padding arrays are k0 and k1-2 zeros (even where k0 df is not exactly representable), no warning is given for an exact grid and one is for "
     "an uneven grid. The match equals the maximum of the overlap over the time offsets of the corresponding inverse FFT: between 0 and 1, at least the overlap at zero offset, 1 for "
     "copies shifted in phase or by whole time steps, symmetric, and independent of phases and scales; callable and array forms agree.",
     ["inputs"], "grids with dyadic, decimal and odd spacings, k0 from 0, strains and noise as for C05, double precision", "One grid is tested today; rounding of k0 = f0/df depends on df.",
     [I], [("padding", I + ": get_eff_pads"), ("match", I + ": get_match, get_match_arr")], ["pads, warnings, match values"],
     "runtime monitor: values observed against an independent FFT and direct sums over the time grid", "workload-based")

lal = "LALSimulation as installed is the oracle (component masses rescaled so that both use the same G Msun)"
prop("C07", "IMRPhenomD strain equals LALSimulation's",
     "For every aligned-spin binary and frequency grid, plus and cross polarisations of IMRPhenomD equal those of LALSimulation's IMRPhenomD at the same parameters and reference frequency, "
     "to 1e-6 of the strain's modulus for remnant spins below 0.98 (less strictly beyond, where the ringdown table is steep) and up to the conditioning of the mass difference, and vanish exactly where it ends.",
     ["inputs"], "masses 2.5 to 500 Msun, mass ratio to 1:100, |spin| <= 1, any inclination, distance, phase, time, f_ref in band, Mf from 2e-4 to 0.24, double precision",
     "The suite compares random samples by mismatch with loose thresholds: errors in one region, a constant phase or the amplitude scale are invisible to it.",
     [W + "IMRPhenomD.py", W + "IMRPhenomD_utils.py", W + "IMRPhenomD_QNMdata.py"], [("model", W + "IMRPhenomD.py: gen_IMRPhenomD_hphc"), ("coefficients", W + "IMRPhenomD_utils.py")],
     ["gen_IMRPhenomD_hphc"], "runtime differential monitor: pointwise complex comparison with LALSimulation", lal)
prop("C08", "IMRPhenomXAS strain equals LALSimulation's",
     "For every aligned-spin binary and frequency grid, plus and cross polarisations of IMRPhenomXAS equal those of LALSimulation's IMRPhenomXAS at the same parameters and reference "
     "frequency, to 1e-6 of the strain's modulus (5e-5 for remnant spins above 0.98) up to the conditioning of the mass difference, and vanish exactly beyond 0.3/M.",
     ["inputs"], "as C07 with Mf to 0.33", "As C07; the suite samples a narrow range and uses mismatch, blind to phase and time conventions.",
     [W + "IMRPhenomXAS.py", W + "IMRPhenomX_utils.py"], [("model", W + "IMRPhenomXAS.py: gen_IMRPhenomXAS_hphc"), ("coefficients", W + "IMRPhenomX_utils.py")],
     ["gen_IMRPhenomXAS_hphc"], "runtime differential monitor: pointwise complex comparison with LALSimulation", lal)
prop("C09", "IMRPhenomPv2 strain equals LALSimulation's",
     "For every precessing, aligned or non-spinning binary, plus and cross polarisations of IMRPhenomPv2 equal those of LALSimulation's IMRPhenomPv2 at the same masses, spin vectors, "
     "inclination, reference phase and reference frequency, to 2e-6 of the strain's modulus for remnant spins below 0.98 (less strictly beyond) after removing one small time shift per "
     "binary that stems from LAL's numerical derivative, and vanish beyond 0.2/M.",
     ["inputs"], "masses 2.5 to 500 Msun, mass ratio to 1:20 with either spin in-plane, aligned, tiny or zero, any inclination incl. 0 and pi, double precision",
     "The suite compares mismatches on random spins; aligned, one-sided and degenerate orientations have measure zero.",
     [W + "IMRPhenomPv2.py", W + "IMRPhenomPv2_utils.py", W + "IMRPhenomD.py", W + "IMRPhenomD_utils.py"],
     [("frame conversion", W + "IMRPhenomPv2_utils.py: convert_spins"), ("twist-up", W + "IMRPhenomPv2.py: PhenomPCoreTwistUp"), ("Euler angles", W + "IMRPhenomPv2_utils.py: PhenomPv2 NNLO angles")],
     ["gen_IMRPhenomPv2_hphc"], "runtime differential monitor: pointwise complex comparison with LALSimulation", lal + "; a time shift below 0.35 M per binary is fitted out")
prop("C10", "TaylorF2 strain equals LALSimulation's",
     "For every binary neutron star, plus and cross polarisations of TaylorF2 (deformabilities given as components or as the tilde pair) equal those of LALSimulation's TaylorF2 with the "
     "universal-relation quadrupoles, to 3e-7 of the strain's modulus up to the conditioning of the mass difference, with and without a reference frequency.",
     ["inputs"], "component masses 0.25 to 3 Msun, |spin| <= 0.9, deformabilities 0 to 8000 incl. zero and one-sided, f 5 to 4000 Hz, double precision",
     "The suite compares mismatches on random samples; tidal branches at deformability zero or one are measure zero.",
     [W + "TaylorF2.py", W + "IMRPhenom_tidal_utils.py"], [("phasing", W + "TaylorF2.py"), ("quadrupoles", W + "IMRPhenom_tidal_utils.py")],
     ["gen_TaylorF2_hphc"], "runtime differential monitor: pointwise complex comparison with LALSimulation", lal)
prop("C11", "IMRPhenomD_NRTidalv2 is PhenomD plus the published tidal and spin terms",
     "For every binary neutron star (component or tilde deformabilities, with or without taper) the strain equals LALSimulation's IMRPhenomD dressed with the NRTidalv2 phase, amplitude, "
     "spin-induced quadrupole/octupole terms and Planck taper of arXiv:1905.06011, to 1e-6 of the untapered amplitude. Where both implement the same spin terms it equals LALSimulation's "
     "IMRPhenomD_NRTidalv2 directly.",
     ["inputs"], "component masses 0.25 to 3 Msun, |spin| <= 0.9, deformabilities 0 to 8000, f 5 to 4000 Hz with extra weight on the taper, double precision",
     "As C10; the suite's thresholds cannot see one spin or amplitude term.",
     [W + "IMRPhenomD_NRTidalv2.py", W + "IMRPhenom_tidal_utils.py", W + "IMRPhenomD.py"], [("tidal phase/amplitude/taper", W + "IMRPhenomD_NRTidalv2.py"), ("kappa, quadrupoles", W + "IMRPhenom_tidal_utils.py")],
     ["gen_IMRPhenomD_NRTidalv2_hphc"], "runtime differential monitor: LAL baseline + independent transcription of the published terms, and LAL directly", lal + "; tidal terms transcribed in vmon/refs.py")
prop("C12", "The sine-Gaussian burst follows its definition and carries hrss of energy",
     "For any quality factor, frequency, amplitude, phase, eccentricity and times, both polarisations equal the published closed form (also LALInference's), and the time integral of "
     "h+^2 + hx^2 is hrss^2 for every phase and eccentricity. Eccentricity one has no cross polarisation.",
     ["inputs"], "quality 0.2 to 300, frequency 3 to 5000 Hz, hrss 1e-25 to 10, eccentricity 0 to 1 incl. ends, any phase, eager / jit / vmap / numpy, double precision",
     "The suite compares a few bursts; the normalisation identity holds only if every phase/eccentricity combination is right.",
     [W + "SineGaussian.py"], [("burst", W + "SineGaussian.py: gen_SineGaussian_hphc, semi_major_minor_from_e")], ["gen_SineGaussian_hphc"],
     "runtime monitor: closed form in extended precision, LALInference, energy quadrature", "trusts numpy longdouble and lalinference")

prop("C13", "Distance, coalescence phase, time and inclination act as documented",
     "In every model, strain is inversely proportional to distance, shifting tc by dt multiplies it by exp(-2 pi i f dt), phic and inclination have period 2 pi. In the aligned-spin models "
     "shifting phic by d multiplies it by exp(2 i d), and the polarisations are one face-on strain times (1 + cos^2 i)/2 and -i cos i.",
     ["inputs"], "all models and parametrisations, any binary, any change of distance over 8 decades, phases, times to 10 s, inclinations, double precision",
     "Sign and unit conventions of tc/phic are invisible to mismatch-based tests, which maximise over them.",
     ALLW, [("extrinsic factors", W + "*: gen_*_hphc, gen_*")], ["gen_*_hphc of all models"], "runtime monitor: metamorphic relations between executions", "workload-based; rounding-level tolerances")
prop("C14", "A strain value depends only on its own frequency",
     "In every model the strain at a frequency does not depend on which other frequencies are in the array, on their order or spacing, on repetition, or on whether the grid runs beyond the "
     "model's end: permuting, splitting, thinning or extending a grid leaves the shared values unchanged up to rounding.",
     ["inputs"], "all models, any binary, permuted / reversed / split / repeated / single-frequency / extended grids, double precision",
     "The suite uses one kind of grid; a dependence on the first, last or maximal frequency is invisible on it.",
     ALLW, [("cut-offs and reference frequencies", W + "*: Mf/f_ref/f_max handling in gen_*")], ["gen_*_hphc of all models"], "runtime monitor: metamorphic comparison of executions on related grids", "workload-based")
prop("C15", "Strains are finite and smooth in band and exactly zero beyond the model's end",
     "For physical parameters and positive frequencies no model ever returns NaN or infinity. Strain is non-zero below the model's end (0.2/M, 0.3/M for XAS, the taper's end for "
     "NRTidalv2), exactly zero beyond it (the untapered NRTidalv2 excepted), and has no jumps or kinks in between, in particular where the models switch between regions.",
     ["inputs"], "all models, any binary, frequencies 1e-5/M to 1e3/M, 8192-point scans of the band (precessing: L + S_parallel > 0), double precision",
     "Joins are at parameter-dependent frequencies; a discontinuity at one join for some spins escapes mismatch tests.",
     ALLW, [("region joins, step functions and cut-offs", W + "*")], ["gen_*_hphc of all models"], "runtime monitor: finiteness/support invariants and a spike detector on dense scans", "kinks below the detector's factor-5 contrast are missed here (C07-C11 see them)")
prop("C16", "Total mass only sets the scale",
     "In every model, multiplying both masses and tc by k and dividing all frequencies and f_ref by k, at fixed distance, angles, spins and deformabilities, multiplies the strain by k^2 "
     "(up to rounding). The frequency where the model ends moves by 1/k.",
     ["inputs"], "all models, any binary, k from 1e-2 to 1e7, double precision", "A hidden absolute frequency or mass constant shows only away from the masses tested.",
     ALLW, [("geometric units", W + "*: theta_intrinsic, gt, M_s")], ["gen_*_hphc of all models"], "runtime monitor: metamorphic scaling relation between executions", "workload-based")
prop("C17", "Derivatives are finite and equal to difference quotients",
     "In every model the derivatives of the strain with respect to every parameter, the frequency and (where traced) the reference frequency are finite for unequal masses, in forward and "
     "reverse mode, including zero, aligned, one-sided and in-plane spins, zero deformabilities and face-on or edge-on views. They equal converged difference quotients, and the two modes agree.",
     ["inputs"], "all models, any binary with unequal masses, away from the model's end; in-plane spin derivatives excluded at exactly aligned spins; double precision",
     "The suite's gradient use is a handful of points; NaN gradients arise at special points (sqrt and arctan at 0, where() branches).",
     ALLW, [("differentiable implementation", W + "*"), ("safe special points", W + "IMRPhenomPv2_utils.py: arctan2_safe")], ["jax.jvp / jax.vjp of gen_*_hphc"],
     "runtime monitor: AD output observed against Richardson-extrapolated difference quotients, forward vs reverse", "workload-based")
prop("C18", "The same numbers however a waveform is called",
     "In every model, eager, jitted (static or traced f_ref), vmapped (over binaries, f_ref or frequencies), mapped, scalar, integer, 2-d, NumPy and list arguments, the model-name "
     "dispatcher, the strain-only and the component-mass entry points give the same strain up to rounding, in the shape of the frequencies. An unknown model name raises ValueError naming it.",
     ["inputs", "programs"], "all models, any binary, ways of calling as listed, double precision", "The suite calls jitted functions in one way; batching and tracing take other code paths (where/cond/indexing).",
     ALLW + ["src/ripplegw/FD_waveform.py"], [("entry points", W + "*: gen_*"), ("dispatcher", "src/ripplegw/FD_waveform.py")], ["all gen_* entry points, FD_waveform_generator"],
     "runtime monitor: differential comparison of calling conventions", "workload-based")
prop("C19", "Calls have no side effects and no memory, in any order or thread",
     "Every public function leaves its arguments unmodified and returns the same bits for the same call whatever was called before (including failed, traced, differentiated or batched "
     "calls), in any process, import order or working directory, and from any number of threads at once. Importing and calling leave the process's settings (JAX configuration, random "
     "states, floating-point and warning filters, environment, working directory) alone, print nothing, and let no tracer escape.",
     ["histories", "schedules", "configurations"], "random histories of ~100 calls with disturbances, fresh processes with shuffled imports and hash seeds, 8 threads with microsecond switch interval; one machine",
     "Needs histories and schedules; the suite makes one call at a time in one process.",
     ALLW + [I, "src/ripplegw/noise.py", "src/ripplegw/FD_waveform.py", W + "SineGaussian.py"], [("pure functions, module-level tables", "src/ripplegw/**")], ["returned bits, argument bytes, process state"],
     "runtime monitor: bitwise replay of random call histories, process-state snapshots, jax.checking_leaks, multi-threaded stress", "interleavings are sampled, not enumerated")
prop("C20", "The default single-precision mode works",
     "With JAX's default settings every waveform, conversion, sampler, burst, inner product and match takes and returns single precision, is finite, and agrees with the double-precision "
     "value to what single-precision phases allow: overlap with the double-precision waveform above 0.999, typical pointwise error of the order of 6e-8 times the accumulated phase. Noise "
     "curves are positive in their band.",
     ["inputs", "configurations"], "frequencies from 10 Hz, masses 5 to 200 Msun (0.25 to 3 for neutron stars), all models", "The suite runs in double precision only; overflow, underflow and dtype promotion appear only in single.",
     ALLW + [I, "src/ripplegw/noise.py"], [("default precision", I + " (x64 left off), README 'Installation'")], ["all public functions in a default-mode process"],
     "runtime monitor: default-mode process observed against a double-precision process on the same inputs", "PSD underflow is a known finding (known_findings.json)")
prop("C21", "The reference frequency only sets a constant phase, anchored as documented",
     "In the aligned-spin models changing f_ref multiplies the whole strain by one frequency-independent phase and changes nothing else, wherever f_ref lies (in band, below it, near a "
     "region boundary, on a grid point). For tc = 0 the face-on strain at f_ref has phase 2 phic (IMRPhenomD), or 2 phic - 3 pi/4 (IMRPhenomXAS, TaylorF2).",
     ["inputs"], "IMRPhenomD, IMRPhenomXAS, TaylorF2, NRTidalv2; any binary; any two reference frequencies below the model's end; double precision", "Mismatch tests maximise over the phase; f_ref is fixed in them.",
     ALLW, [("reference phase", W + "*: use of f_ref")], ["gen_*_hphc"], "runtime monitor: metamorphic relation between executions with different f_ref", "anchors as in LALSimulation")
prop("C22", "Models agree in their common limits and respect physical symmetries",
     "Equal-mass objects can be exchanged; component and tilde deformabilities give the same strain; NRTidalv2 at zero deformability is PhenomD; aligned IMRPhenomPv2 has PhenomD's modulus "
     "and its phase up to a linear function of frequency, and is the limit of vanishing in-plane spins; rotating all spins about L equals changing phic. At low frequency every model tends to the quadrupole formula in amplitude and phase.",
     ["inputs"], "all models, any binary satisfying the limit (precessing limits where L + S_parallel > 0 in band), double precision", "Cross-model relations are not in the suite.",
     ALLW, [("shared PhenomD core", W + "IMRPhenomD.py, IMRPhenomD_utils.py"), ("frame conversion", W + "IMRPhenomPv2_utils.py")], ["gen_*_hphc"],
     "runtime monitor: cross-model and symmetry relations between executions", "workload-based")

prop("C23", "Utilities can be jitted, batched and differentiated",
     "Conversions, noise curves, burst, overlaps and matches give the same numbers called directly, under jit and in a vmapped batch. Their derivatives with respect to every argument are finite "
     "and equal to converged difference quotients, alike in forward and reverse mode and in batches; the match is stationary where the two waveforms are equal.",
     ["inputs", "programs"], "unequal masses, eccentricity below one, frequencies inside the tables and off their nodes, matches attained at one lag only; double precision",
     "The suite differentiates waveforms at a few points and never the utilities around them, though fits and template placement do.",
     [I, "src/ripplegw/noise.py", W + "SineGaussian.py"], [("conversions, overlap, match", I), ("noise curves", "src/ripplegw/noise.py"), ("burst", W + "SineGaussian.py")],
     ["jax.jit / vmap / jvp / vjp of the public utilities"], "runtime monitor: transformed executions observed against direct ones; AD against Richardson-extrapolated difference quotients",
     "workload-based")

prop("C24", "Second derivatives are finite, symmetric and right",
     "For unequal masses the second derivatives of a waveform's strain with respect to its parameters (Hessians, as in Fisher matrices) are finite, symmetric, the same whichever of forward and "
     "reverse mode are nested, and equal to difference quotients of the first derivatives, including zero spins, zero deformabilities, face-on views and frequencies inside the NRTidalv2 taper.",
     ["inputs"], "IMRPhenomD, TaylorF2, NRTidalv2 (thorough: also IMRPhenomXAS, IMRPhenomPv2), spins below 0.9, random directions in parameter space; double precision. The tabulated ringdown "
     "frequency counts as piecewise linear.", "The suite takes no second derivative; custom derivative rules and where() branches can be right at first order only.",
     [W + x for x in ("IMRPhenomD.py", "IMRPhenomD_NRTidalv2.py", "TaylorF2.py", "IMRPhenomXAS.py", "IMRPhenomPv2.py", "IMRPhenom_tidal_utils.py")],
     [("differentiable implementation", W + "*"), ("custom derivative rule", W + "IMRPhenomD_NRTidalv2.py: get_planck_taper")], ["nested jax.jvp / jax.grad of gen_*_hphc"],
     "runtime monitor: nested AD output observed for finiteness, symmetry, mode independence and against difference quotients of first derivatives", "workload-based")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p, _, _ in P:
            fh.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"], technique=t, level="exploration",
                   level_note=n) for p, t, n in P]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=[],
                       notes="No hooks in /repo: every monitor observes public functions. Known findings: known_findings.json."), fh, indent=1)
