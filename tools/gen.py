"""Writes properties.jsonl and MANIFEST.json from one table (kept in step)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


T = "torchiva/"
prop("C01", "STFT analysis and synthesis are exact inverses",
     "The STFT of a signal is its windowed, hop-spaced discrete Fourier transform for every window (named or custom), hop and FFT length, and the inverse transform of the STFT returns the signal on every sample that the windows cover. Leading batch and channel dimensions are preserved, each channel being transformed on its own.",
     ["inputs", "configurations"], "every signal, window, hop and FFT length (even and odd), any leading dimensions",
     "The tests run the STFT only inside full separations on one random or recorded signal and compare no sample of the transform itself; a window/hop combination or batch layout that breaks inversion is never sampled.",
     [T + "stft.py"], [("STFT.forward and STFT.inv", T + "stft.py")], ["STFT.forward", "STFT.inv"])
prop("C02", "fftconvolve computes the linear convolution",
     "For all signals and filters, fftconvolve returns their linear convolution along the last axis in the full, same and valid modes, with broadcast leading dimensions. The result never wraps around circularly and has the length the mode prescribes.",
     ["inputs", "configurations"], "all pairs of lengths, modes, real values, broadcast shapes",
     "tests/test_fftconvolve.py compares with scipy on a few random lengths; off-by-one errors in padding or cropping for other length parities and for broadcast shapes are not reached.",
     [T + "fftconvolve.py"], [("padded FFT product and cropping", T + "fftconvolve.py")], ["fftconvolve"])
prop("C03", "Hermitian (generalized) eigendecompositions return eigenpairs",
     "For every Hermitian A and positive definite B, the (generalized) eigendecomposition returns eigenvalues in ascending order and unit-norm eigenvectors with A v = lambda B v, for 2x2 matrices by the closed form and for other sizes by the general routine, batched and broadcast. The arguments are not modified.",
     ["inputs", "configurations"], "all Hermitian A, positive definite B, real and complex, any batch",
     "tests/test_linalg.py samples random matrices and checks eigenvectors through outer products for one layout; specific entries (signs, conjugations, clamps, broadcast) stay unsampled.",
     [T + "linalg.py"], [("eigh_2x2, eigh", T + "linalg.py")], ["linalg.eigh", "linalg.eigh_2x2"])
prop("C04", "Linear-algebra helpers compute what they are named after",
     "For every input, the loaded solves and inverses return the exact solution of the system with the documented diagonal loading, the 2x2 inverse is the inverse wherever the determinant is not below eps, and magnitude, complex multiplication/division, Hermitian transpose, batched product, diagonal loading and Hankel view agree with their mathematical definitions. Loading never makes a positive semidefinite system singular.",
     ["inputs", "configurations"], "all matrices and vectors, real and complex, batched",
     "The tests cover a handful of random matrices for a few helpers; degenerate scales, clamps and batch shapes are not sampled.",
     [T + "linalg.py"], [("helpers", T + "linalg.py")], ["linalg.*"])
prop("C05", "T-ISS computes the joint separation and dereverberation updates",
     "For every mixture, source model, number of iterations, taps, delay, sources and reference microphone, T-ISS returns the signals obtained by its published updates: sources, background, then dereverberation taps, followed by projection back onto the reference microphone. The returned signals are exactly the demixing and dereverberation filters applied to the input. More sources than channels are refused.",
     ["inputs", "configurations"], "all mixtures and positive source-model weights; determined and overdetermined, with and without dereverberation, any reference microphone or none",
     "tests/test_overtiss.py and test_iss_t_rev.py check invertibility or improvement on a few random signals; wrong signs or indices in rarely used branches (background with taps, reference on a background channel) pass them.",
     [T + "t_iss.py"], [("T_ISS.forward and its update helpers", T + "t_iss.py")], ["T_ISS.forward"])
prop("C06", "Source models return the documented inverse source power",
     "For every signal, the Laplace, Gauss and NMF models return strictly positive weights equal to the inverse of their documented power estimate, bounded by 1/eps, of the shape of the input, each leading (batch, source) index on its own. The NMF state is created on the first call after a reset and then follows the multiplicative updates.",
     ["inputs", "histories"], "all spectrograms (including zeros), any leading dimensions, every initial NMF state",
     "No test calls the classic models on their own; they are exercised inside separations whose results are compared loosely.",
     [T + "models/classic.py"], [("LaplaceModel, GaussModel, NMFModel", T + "models/classic.py")], ["models.*.forward"])
prop("C07", "The memory-saving mode changes neither results nor gradients",
     "For every input, T-ISS with demixing-matrix checkpointing returns the same signals as without it, and back-propagation through the checkpointed iterations gives the gradients of the same computation without checkpointing, for the input and for the source-model parameters.",
     ["inputs", "configurations"], "all mixtures and learnable source models, determined and overdetermined, with and without taps",
     "tests/test_autograd.py compares one random signal in float; an omitted argument or a recomputation with different data shows only for other configurations.",
     [T + "t_iss.py"], [("over_iss_t_one_iter_dmc with torch checkpoint", T + "t_iss.py")], ["T_ISS.forward(use_dmc=True)", "autograd"])
prop("C08", "AuxIVA-IP computes iterative-projection updates",
     "For every mixture and source model, AuxIVA-IP returns the signals of its published iterative-projection updates for the requested number of sources (all channels when unspecified), keeping the background orthogonal to the extracted sources in the overdetermined case; more sources than channels are refused. The result is scaled by projection back onto any chosen reference microphone, or not at all if none is chosen.",
     ["inputs", "configurations"], "all mixtures and positive weights, determined and overdetermined, any reference microphone or none, any batch",
     "The algorithm has no direct numerical test against its equations; the tests only run it.",
     [T + "auxiva_ip.py"], [("AuxIVA_IP.forward", T + "auxiva_ip.py")], ["AuxIVA_IP.forward"])
prop("C09", "AuxIVA-IP2 performs pairwise joint-diagonalisation updates",
     "For every two-channel mixture and source model, AuxIVA-IP2 returns the signals obtained by replacing both demixing filters with the generalized eigenvectors of the two weighted covariance matrices, normalised to unit weighted power, followed by projection back onto the chosen reference microphone. Other channel counts are refused.",
     ["inputs", "configurations"], "all two-channel mixtures and positive weights, iterations, reference microphones, batches",
     "The tests compare separation quality on random data only; swapped filters, conjugations or wrong covariances can still separate a test signal.",
     [T + "auxiva_ip2.py"], [("AuxIVA_IP2.forward", T + "auxiva_ip2.py")], ["AuxIVA_IP2.forward"])
prop("C10", "FIVE extracts one source by whitened minimum-eigenvector updates",
     "For every mixture, FIVE returns one source: the whitened mixture filtered with the eigenvector of the smallest eigenvalue of the weighted covariance, at each iteration, by full eigendecomposition or by the requested number of power iterations. The result is projected back on the reference microphone when one is given, and the DC bin is zero.",
     ["inputs", "configurations"], "all mixtures and weights, channels, iterations, power iterations, reference microphones, batches",
     "The tests run FIVE once on random data; a single power iteration, no projection back and complex 2x2 whitening were all wrong without a test failing.",
     [T + "five.py"], [("FIVE.forward", T + "five.py")], ["FIVE.forward"])
prop("C11", "Scale restoration gives the documented projections",
     "Projection back scales each source so that the sources add up to the reference signal on the most energetic frames (up to a 1e-5 load). The minimum-distortion scale makes the residual to the reference orthogonal to the source, its phase-only variant changes only the phase, and the lp and mixed-norm variants follow the reweighted least-squares iteration of their norm until the relative step falls under the tolerance.",
     ["inputs", "configurations"], "all sources and references, exponents, iteration limits and tolerances, batches",
     "No test calls the scaling functions.",
     [T + "scaling.py"], [("projection_back, minimum_distortion, lp_norm, lpq_norm", T + "scaling.py")], ["projection_back", "minimum_distortion", "minimum_distortion_l2_phase"])
prop("C12", "WPE subtracts the weighted delayed linear prediction",
     "For every signal, WPE returns the input minus its prediction from the frames at least delay+1 steps earlier, with the prediction filter that minimises the weighted error for the current power estimate (or given model), repeated for the requested iterations. The first delay+1 frames are returned unchanged and no output depends on later prediction inputs than the delay permits.",
     ["inputs", "configurations"], "all signals, taps, delays, iterations, weights, batches",
     "tests/test_wpe.py compares loosely on one recording; an off-by-one delay or a wrong tap order still dereverberates it.",
     [T + "wpe.py"], [("WPE.forward", T + "wpe.py")], ["WPE.forward"])
prop("C13", "The MVDR beamformer is the distortionless filter of its masks",
     "For every mixture and masks, the MVDR beamformer outputs the mixture filtered with the minimum-variance distortionless weights computed from the masked covariances: relative transfer function by generalized eigenvector or by power iteration, or the covariance form, with the third mask (when present) used for the relative transfer function. The steering vector is one at the reference microphone and the filter passes it with unit gain.",
     ["inputs", "configurations"], "all mixtures, two or three positive masks, sources, reference microphones, variants, batches",
     "tests/test_beamformer.py checks shapes and quality with oracle masks on one recording; swapped masks, missing conjugates or another reference survive that.",
     [T + "beamformer.py"], [("compute_mvdr_rtf_eigh, compute_mvdr_bf, compute_mvdr_bf2, MVDRBeamformer", T + "beamformer.py")], ["MVDRBeamformer.forward"])
prop("C14", "MWF and GEV beamformers apply the filters of their masks",
     "For every mixture and masks, the MWF output is the minimum mean-square-error estimate of the target at the reference microphone from the masked covariances (time-invariant or, with activity masks, time-varying), loaded by eps. The GEV output is the mixture filtered by the dominant generalized eigenvector, scaled to the target's image at the reference microphone.",
     ["inputs", "configurations"], "all mixtures, positive masks, sources, reference microphones, batches",
     "The beamformer tests check shapes and quality on one recording with oracle masks.",
     [T + "beamformer.py"], [("compute_mwf_bf, compute_gev_bf, MWFBeamformer, GEVBeamformer", T + "beamformer.py")], ["MWFBeamformer.forward", "GEVBeamformer.forward"])
prop("C15", "Signals in one batch do not influence each other",
     "For every separation, dereverberation and beamforming algorithm, source model, scaling function, transform and the separator module, processing a batch (any leading dimensions) gives for each item exactly what processing that item alone gives. The input tensor is not modified.",
     ["inputs", "configurations"], "all batches of signals and batch shapes, all algorithms",
     "Tests run single items or compare nothing across the batch; a reduction over a batch axis only shows when items differ strongly.",
     [T + "t_iss.py", T + "auxiva_ip.py", T + "auxiva_ip2.py", T + "five.py", T + "wpe.py", T + "beamformer.py", T + "scaling.py", T + "models/classic.py", T + "stft.py", T + "nn.py", T + "utils.py"],
     [("leading dimensions are carried as batch", T)], ["every public algorithm"])
prop("C16", "Per-call options act on that call only; calls are independent",
     "An option given in a call (including 0 and False) has the effect of the same option given at construction and does not alter the object's settings; an option given in neither place has its documented default. The result of a call depends only on its input and options, not on earlier calls, also with stateful source models, which start afresh with every signal; inputs are left unmodified.",
     ["inputs", "histories", "configurations"], "all inputs and histories of calls with any per-call options",
     "No test makes two calls on one object with different options and compares.",
     [T + "base.py", T + "t_iss.py", T + "auxiva_ip.py", T + "auxiva_ip2.py", T + "five.py", T + "wpe.py", T + "beamformer.py"],
     [("_set_params, _reset", T + "base.py")], ["forward of every algorithm"])
prop("C17", "The separator module is STFT, algorithm and inverse STFT",
     "For every multichannel time signal and every algorithm name, the separator module returns the inverse STFT of what the named algorithm, configured with the given options, makes of the signal's STFT, cut or zero-padded to exactly the input length. Selecting the most energetic signals keeps, in order of decreasing power, the requested number of signals unchanged, per batch item.",
     ["inputs", "configurations"], "all signals and lengths, algorithms and options; all tensors and axes for the selection",
     "tests/test_separate.py runs the module on one recording and checks the output shape.",
     [T + "nn.py", T + "utils.py", T + "stft.py"], [("BSSSeparator", T + "nn.py"), ("select_most_energetic", T + "utils.py")], ["BSSSeparator.forward", "select_most_energetic"])
prop("C18", "The separate command writes, for each input, its separation",
     "The separate command reads the selected channels of each wav file (of a folder, recursively), separates them with the algorithm, model and STFT options given on the command line, keeps the requested number of most energetic sources at the input length, and writes one file per input at the mirrored location under the output. It refuses inconsistent options and never writes to the input.",
     ["inputs", "configurations"], "all command lines, signals, numbers of channels and folder trees",
     "tests/test_separate_command.sh needs recordings and network and is not among the stable tests; option plumbing is untested.",
     [T + "separate.py"], [("main, separate_one_file, get_parser", T + "separate.py")], ["python -m torchiva.separate"])
prop("C19", "A loaded separator is the published model, whatever the downloads did",
     "Loading a separator from a folder or URL gives a module whose options are the stored configuration overridden by the given arguments and whose weights are the stored weights. A failed or interrupted download is never taken for a complete file by a later load, complete files are downloaded once, and missing files or folders are reported as errors.",
     ["fault_sequences", "histories", "configurations"], "all stored configurations and overrides, all sequences of loads with download failures at any point",
     "tests/test_loader.py needs the network; no test makes a download fail.",
     [T + "loader.py"], [("get_model_from_url, load_separator_model, load_separator", T + "loader.py")], ["load_separator"])
prop("C20", "Neural source models compute their network for all trained weights",
     "For all weights, batch statistics and inputs, each neural source model in evaluation mode returns the output of its network on the input's features, in the documented shape, so that trained weights keep their meaning: every mask lies between its floor and one, every batch item is processed on its own, repeated calls agree and the input is left unmodified.",
     ["inputs", "configurations"], "all weights and inputs, batch shapes and constructor options",
     "The tests use one random initialisation of one model and look at shapes; the published weights need the network.",
     [T + "models/glu.py", T + "models/blstm.py", T + "models/simple.py"], [("GLUMask, BLSTMMask, MaskMVDRSupport, SimpleModel", T + "models/")], ["forward"])
prop("C21", "Silent and degenerate inputs give finite outputs",
     "For every finite input, including all-zero signals, silent channels, frames or frequencies, repeated or identical channels and fewer frames than channels, T-ISS (with taps, background channels, demixing-matrix tracking and projection back), AuxIVA-IP2, FIVE (eigendecomposition), WPE, the MWF beamformer, the Laplace, Gauss and NMF source models and the minimum distortion scalings divide only by nonzero numbers, solve only nonsingular systems and take square roots only of nonnegative numbers, so that they return finite outputs and raise nothing. The MVDR and GEV beamformers return finite outputs on all-zero frequencies (currently violated: known findings).",
     ["inputs", "configurations"], "all finite inputs, in particular those on which powers, norms or determinants vanish",
     "Tests use random or recorded signals, on which no denominator comes near zero.",
     [T + "linalg.py", T + "t_iss.py", T + "auxiva_ip2.py", T + "five.py", T + "wpe.py", T + "scaling.py", T + "beamformer.py", T + "models/classic.py"],
     [("clamps and diagonal loading", T)], ["forward of every algorithm"])
prop("C22", "Double-precision inputs are processed in double precision",
     "For every algorithm and source model, a double-precision input gives a double-precision output none of whose intermediate values has passed through a lower precision, whatever the default dtype of torch. Single-precision input gives single-precision output.",
     ["inputs", "configurations"], "all inputs, algorithms and options, default dtypes",
     "tests/test_dtypes.py compares dtypes of a helper; an intermediate buffer in the default dtype silently rounds and no tolerance in the tests notices.",
     [T + "linalg.py", T + "t_iss.py", T + "auxiva_ip.py", T + "auxiva_ip2.py", T + "five.py", T + "wpe.py", T + "scaling.py", T + "beamformer.py", T + "models/classic.py", T + "dtypes.py"],
     [("type_as / new_zeros / dtype helpers", T)], ["forward of every algorithm"])

TECH = "symbolic execution of the real torch code at operator level; z3 decides every obligation for all inputs within the bounds; counterexamples replayed"
NOTE = ("Bounded: holds for every real-valued input at the listed sizes and options (see BOUNDS in the check and DESIGN.md). Trusts z3, the per-operator semantics in symt/ops.py "
        "(cross-checked against torch on every executed operation) and real-number semantics instead of floats; eigensolvers and solves beyond 3x3 enter by contract. Undecided obligations are reported as such.")


def main():
    have = {os.path.basename(f)[:3].upper(): f for f in glob.glob(os.path.join(HERE, "checks", "c[0-9][0-9]_*.py"))}
    props = [p for p in P if p["id"] in have]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in props:
        i = p["id"]
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
                           technique=TECH, level="other", level_note=NOTE))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks, not_applicable=[],
             notes="Engine: symt/ (symbolic shadow of torch tensors, z3). One module per property in checks/. Known findings and fixed defects: known_findings.jsonl. No hooks in /repo.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
