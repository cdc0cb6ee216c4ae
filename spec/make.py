"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
TM = "refellips/reflect_modelSE.py"
SS = "refellips/structureSE.py"
DI = "refellips/dispersion.py"
DA = "refellips/dataSE.py"
OB = "refellips/objectiveSE.py"
PL = "tools/plottools.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(
        row=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech])),
        tech=tech, note=note))


prop("C01", "Psi and Delta are the exact optical response of the layer stack",
     "For any stack of homogeneous isotropic passive layers (transparent, absorbing, metallic, evanescent, opaque, zero-thickness), any wavelength and any angle of incidence below grazing, the calculated Psi and Delta are those of the Fresnel/Maxwell solution of that stack: tan(Psi) = |rp/rs|, Delta = -arg(rp/rs) on [0, 360), Psi in [0, 90]. Results are finite wherever light is reflected.",
     ["inputs"], "all stacks of 0-12 arbitrary inner layers, multilayers of up to ~150 films, wavelengths, angles of incidence",
     "tests compare ~11 fixed samples on silicon with exported WVASE curves; total internal reflection, opaque or metallic layers and unusual ambients are never reached",
     [TM, SS], [("coh_tmm / Delta_Psi_TMM", TM), ("StructureSE.slabs", SS)],
     "property-based testing: differential against an independent long-double recursive (Airy/Parratt) reflectance model",
     "generated stacks, judged on the polarisation state to 1e-8; points at exactly critical angles and without reflected light are left out")
prop("C02", "Stacks that are the same optically give the same Psi and Delta",
     "Rewriting a sample in a way that leaves the optics unchanged leaves Psi and Delta unchanged: adding a zero-thickness layer, splitting a layer, adding a layer of the ambient or of the backing medium next to it, changing roughness or the thickness of the end media, scaling all lengths with the wavelength, changing what lies below an opaque layer, or solvating a layer with its own material. The result does not depend on the sign of the angle of incidence or on an extinction coefficient given to the ambient.",
     ["inputs", "programs"], "all stacks and chains of rewrites, all query points",
     "no test compares two equivalent samples", [TM, SS],
     [("transfer matrix product, end media treated as semi-infinite", TM)],
     "property-based testing: metamorphic relations over chains of rewrites",
     "generated stacks and rewrite chains, 1e-8 on the polarisation state")
prop("C03", "Each measurement point is answered on its own, in place",
     "The Psi/Delta returned at position i depend only on the sample and the (wavelength, angle) at position i, in whatever order, number, repetition, container or number type the points are asked for, and whatever was asked before. Each point is calculated with the refractive indices of its own wavelength.",
     ["inputs", "histories"], "all lists of query points (unsorted, repeated, near-equal, mixed angles), all earlier queries",
     "tests ask for sorted float arrays with one wavelength or one angle at a time", [TM, SS],
     [("ReflectModelSE.model grouping by wavelength", TM)],
     "property-based testing: batch vs single point vs permutation vs reference",
     "batches up to 40 points; ill-conditioned points are left out")
prop("C04", "Delta conventions: offset and reflection about 180 degrees",
     "The delta offset is added to the model's Delta and to nothing else. With reflected data, measured Delta above 180 become 360 - Delta and the model compared with them is reflected the same way before the offset is added; with unreflected data neither is.",
     ["inputs", "configurations"], "all samples, measured values in [0, 360], offsets, both conventions",
     "one test uses the reflected convention with one sample", [TM, DA, OB],
     [("Delta_Psi_TMM(reflect_delta)", TM), ("DataSE(reflect_delta)", DA), ("ObjectiveSE convention of the data", OB)],
     "property-based testing: reference model of the conventions",
     "values next to the fold (1e-6 deg) are not judged for reflection")
prop("C05", "A structure is exactly the sequence of layers it was built from",
     "After any sequence of building operations (combining with |, |=, append, extend, insert, pop, delete, replace, repeat with *), the slab table has one row per layer, in order, with that layer's thickness, index, roughness and solvent fraction at the wavelength asked for, and changes of a layer show everywhere it is used. Appending or combining refuses objects that are not layers, materials or structures and leaves the structure as it was.",
     ["histories"], "all histories of building operations", "tests build a handful of structures with |",
     [SS], [("StructureSE.append/__or__/__ior__, ComponentSE.__mul__", SS)],
     "stateful property-based testing against a list model", "histories of up to 14 operations")
prop("C06", "Reversing a structure is turning the sample over",
     "A structure with the reverse setting gives the slab table, profile, Psi and Delta of the same sample built by hand in the opposite order, with each roughness staying with its interface and solvation by the medium that is then at the back. Reversing twice restores the original.",
     ["inputs", "configurations"], "all stacks with roughness, solvation, mixed layers",
     "no test evaluates a reversed structure", [SS], [("StructureSE.slabs reversal", SS)],
     "property-based testing: differential against the hand-reversed sample and the reference", "generated stacks")
prop("C07", "Solvation mixes each inner layer with the solvent, and only those",
     "Each inner layer has the effective index of its material mixed with its volume fraction of the solvent under the structure's mixing rule and depolarisation factor, at every wavelength; the media at the ends stay as they are and fraction 0 leaves a layer as it is. The solvent is the given material or, without one, the medium at the back; invalid solvents and depolarisation factors outside [0, 1] are refused.",
     ["inputs", "histories"], "all stacks, fractions in [0, 1], solvents, mixing rules, live changes",
     "three fixed samples with one solvated layer", [SS],
     [("StructureSE.slabs/overall_ri", SS), ("StructureSE.solvent, depolarisation_factor", SS)],
     "property-based testing against a reference mixing model", "generated stacks and live changes of fractions, solvent, rule")
prop("C08", "Effective medium mixing obeys its laws",
     "For passive media the linear, Maxwell-Garnett and Bruggeman mixtures satisfy their defining equations for every fraction and depolarisation factor in [0, 1], give exactly the pure media at fractions 0 and 1, and are passive (no gain). The linear and Bruggeman mixtures do not depend on which medium is called the host, array and scalar arguments agree, and unknown mixing rules are refused.",
     ["inputs"], "all pairs of passive media, fractions, depolarisation factors",
     "tests use one fraction per rule with transparent media", [SS], [("overall_ri", SS)],
     "property-based testing: residual of the defining equation, end points, symmetry, passivity, reference root",
     "mixtures within 1e-6 of a resonance or of coincident roots are left out")
prop("C09", "A two-material slab behaves as a slab of the mixture",
     "A slab made of two materials has, at every wavelength, the index of the mixture of both with the given fraction of the second one under the structure's mixing rule and depolarisation factor, and gives the Psi and Delta of a plain slab of that index or of the first material solvated by the second. Fraction changes take effect at once.",
     ["inputs", "configurations"], "all pairs of materials, fractions, rules, wavelengths, positions",
     "one mixed slab with constants in tests", [SS], [("MixedSlabSE.slabs", SS)],
     "property-based testing: reference mixture, equivalence of representations", "generated stacks of 1-4 mixed slabs")
prop("C10", "Tabulated and constant materials return their tabulated values",
     "A material given as constants, arrays or a file returns at each wavelength the linear interpolation of its n and k (the nearest end value outside the table, k = 0 without an extinction column), for scalars and arrays, with micrometres in tables and nanometres in queries. The same table gives the same material by every way of loading, every bundled material can be loaded by name and returns its published table, and unknown names or malformed input are refused.",
     ["inputs"], "all sorted tables, file formats, wavelengths; every bundled material",
     "one array and loadability of bundled files are tested", [DI, "refellips/materials"],
     [("RI, load_material", DI)],
     "property-based testing: own reader and interpolation, equivalence of loading routes",
     "bundled tables are compared with a snapshot kept in /verif/data")
prop("C11", "Parametric dispersion models follow their documented formulas",
     "Cauchy, Sellmeier, Lorentz, Gauss, Tauc-Lorentz and user-defined oscillator materials give the complex refractive index of their documented formula for every physical parameter set and wavelength, as scalars and arrays, with any number of oscillators. Parameter objects handed in are used as they are, so changing or sharing them changes the material at once.",
     ["inputs", "histories"], "all parameter sets, numbers of oscillators, wavelengths, parameter changes",
     "one parameter set per model is compared with exported curves", [DI],
     [("Cauchy, Sellmeier, Lorentz, Gauss, TaucLorentz", DI), ("ScattererSE.complex", SS)],
     "property-based testing: independent formulas (long double), parameter histories",
     "the Gaussian is judged within the error of the 0.02 eV grid that the code uses")
prop("C12", "Oscillator models are causal and passive",
     "For Lorentz, Gauss and Tauc-Lorentz materials the real and imaginary parts of the dielectric function are Kramers-Kronig partners at every energy, and absorption is never negative; results are finite at resonances and at the band gap. The Tauc-Lorentz absorption is exactly zero at and below the gap.",
     ["inputs"], "all parameter sets from narrow to overdamped, all energies",
     "needs an integral relation over all energies; tests have one curve each", [DI],
     [("Lorentz, Gauss, TaucLorentz epsilon", DI)],
     "property-based testing: numerical Kramers-Kronig transform of the code's own absorption",
     "quadrature accurate to 2e-5 of the strength; Gaussian within its grid error")
prop("C13", "The refractive index profile is that of the rough layer stack",
     "The profile is the sum of the index steps of the slab table, each smeared by the error function of its roughness and placed at its interface, tends to the end media, and is evaluated at the depths asked for. Alignment shifts it so that the chosen interface is at zero, and it follows later changes of parameters and wavelength.",
     ["inputs"], "all stacks, depths, alignments", "no test looks at a profile", [SS],
     [("StructureSE.ri_profile", SS)],
     "property-based testing against a reference profile", "default (Gaussian) interfaces")
prop("C14", "Sliced interfaces and contraction represent the same sample",
     "With non-default interface shapes the slab table is a fine slicing of the mixed profile that the shapes define (total thickness, end media, solvation and mixing rule kept), and Psi and Delta are those of that profile. Contracting a structure merges slabs of that table by the area rule of refnx with the tolerance given, keeps the end media, and can be undone.",
     ["inputs", "configurations"], "all stacks with interface shapes, solvents, rules, wavelengths",
     "one micro-sliced sample in tests, with a smoke assertion", [SS],
     [("StructureSE.slabs micro slicing, overall_ri", SS)],
     "property-based testing: reference profile, optics of the reference slicing",
     "a slice may sit up to 0.75 A from the ideal profile")
prop("C15", "A dataset hands out exactly the unmasked points it was given",
     "After any history of creating, masking, replacing, copying and wrapping, a dataset returns the wavelength, angle, Psi and Delta of exactly the unmasked points in the order given (Delta reflected only if asked for), its length is their number, and grouping by wavelength partitions them. It keeps its own copy of the values.",
     ["histories", "inputs"], "all datasets and histories of operations", "tests use two datasets, masks are never exercised",
     [DA], [("DataSE.mask, data, unique_wavelength_data", DA)],
     "stateful property-based testing against a list model", "histories of up to 8 operations, 0-40 points")
prop("C16", "Saved data are loaded back unchanged, and refresh follows the file",
     "Loading a saved dataset gives back its points to the precision written, whether by path or open file and whatever the header of the file; refreshing after the file changed gives the points now in the file in the same Delta convention. Columns keep their meaning and order.",
     ["inputs", "histories"], "all datasets, file layouts, ways of opening, rewrites of the file",
     "save is never tested; one four-column file is loaded", [DA], [("DataSE.save/load/refresh", DA)],
     "property-based testing: round trip and generated files", "files have at least one data row")
prop("C17", "Accurion files: one dataset per place and time, zones averaged",
     "Reading an Accurion EP3/EP4 file gives one dataset per measured position and time, in which each (wavelength, angle) appears once with the average of its repeated measurements (Delta averaged on the circle), incomplete rows dropped and nothing mixed between positions or times. Metadata and names identify position and time; reflection is applied if asked for.",
     ["inputs"], "all files with positions, times, zones, missing values, column orders",
     "two sample files", [DA], [("open_EP4file, _loadEP4, _average_EP4", DA)],
     "property-based testing: generated files with a reference reader",
     "positions at least 0.4 mm apart; repeats within 20 degrees")
prop("C18", "M2000 files: every point and time is read with its own values",
     "Reading a static or dynamic Woollam M2000 export gives, for every time (or once), the points of the file with their wavelength, angle, Psi and Delta in file order, and the requested decimation keeps exactly every n-th point and time starting with the first. Other kinds of file are refused.",
     ["inputs"], "all static/dynamic exports, decimations, line ends", "one static and one dynamic sample file",
     [DA], [("open_M2000file", DA)], "property-based testing: generated files with a reference reader",
     "known finding: times of a dynamic file closer than 0.1 s share a key")
prop("C19", "FilmSense files: N, C, S become the right Psi and Delta",
     "Reading a static or dynamic FilmSense export gives, for each time, every wavelength with the angle of incidence of the header and with Psi and Delta of its N, C, S values (Delta in the right quadrant over the full circle) and the metadata of the file. Other kinds of file are refused.",
     ["inputs"], "all exports, all Psi/Delta", "one file each is compared at a few values", [DA],
     [("open_FilmSenseFile", DA)], "property-based testing: generated files from known Psi/Delta",
     "sin(2 Psi) > 1e-3")
prop("C20", "HORIBA files: table, limits and metadata are read as written",
     "Reading a HORIBA .spe file gives the points of its data table (inside the wavelength limits asked for, in file order, with the file's angle of incidence) whatever the order of columns and sections, and metadata sections with their content. Reflection is applied if asked for.",
     ["inputs"], "all files with sections and columns in any order, limits", "no test reads a HORIBA file", [DA],
     [("open_HORIBAfile", DA)], "property-based testing: generated files with a reference reader",
     "sections are ended by blank lines; ASCII/UTF-8")
prop("C21", "A fit minimises the documented residuals and log-probabilities",
     "Residuals are model minus measured Psi followed by the shortest circular distance of model and measured Delta, over the unmasked points; chi-squared is their sum of squares; the log-likelihood is the documented Gaussian sum (lnsigma, weights) plus the sample's and the user's own log-probability terms; the log-posterior adds the log-prior and is minus infinity outside the bounds. Passing parameter values is the same as setting them first, and several datasets add up.",
     ["inputs", "configurations"], "all samples, datasets, masks, conventions, noise terms, priors, parameter vectors",
     "two tests compare numbers for one sample each", [OB, TM],
     [("ObjectiveSE.residuals/chisqr/logl/logp/logpost", OB), ("circular_distance", OB)],
     "property-based testing against a reference calculation from the layers",
     "ill-conditioned points are left out; agreement 2e-6 deg")
prop("C22", "Parameters reach the model: set, shared, constrained, varied",
     "After any history of setting parameter values (all or only the varying ones, through the objective, the model or directly), sharing, constraining and changing what varies, Psi, Delta and the slab table are those of a sample with exactly these values. Every fittable quantity (layers, materials, solvent, offset, lnsigma) appears among the parameters, varying ones once each; vectors of a wrong length are refused; the prior transform and log-prior are those of the bounds given.",
     ["histories"], "all samples and histories of parameter operations",
     "tests vary one or two thicknesses", [OB, TM, SS, DI],
     [("ObjectiveSE.setp, varying_parameters, prior_transform", OB), ("parameters properties", SS)],
     "stateful property-based testing against a sample spec with the same values", "histories of up to 8 operations")
prop("C23", "The covariance is that of the residuals' Jacobian",
     "The parameter covariance is (J'J)^-1 of the residuals' Jacobian at the current values, times reduced chi-squared if the data are unweighted, for parameters of any magnitude including zero. Calculating it leaves every parameter as it was, and a single parameter without effect is reported as an error.",
     ["inputs"], "all samples, sets of varying parameters, data", "never tested numerically",
     [OB], [("ObjectiveSE.covar", OB)],
     "property-based testing against a finite-difference Jacobian of the reference model",
     "condition number of the scaled Jacobian below 1e4, away from folds")
prop("C24", "Copies and pickles give the same answers and live on their own",
     "Pickling (any protocol), deep-copying and copying structures, models, objectives, datasets and materials preserves every answer, setting, parameter, prior and sharing. Changing a deep copy or pickle, or the settings and layer list of a copied structure, never changes the original.",
     ["inputs", "histories"], "all analyses, chains of copies", "pickling is never tested with solvent, ema, masks or sharing",
     [SS, TM, OB, DA, DI], [("StructureSE.__copy__", SS), ("plain attributes of all classes", "refellips")],
     "property-based testing: answers of copy vs original", "chains of up to 3 copies")
prop("C25", "Fitting improves, respects bounds and finds the true sample",
     "A converged fit never leaves chi-squared above its start, keeps varying parameters inside their bounds and fixed ones untouched, and reports the values it leaves behind. From exact data of a sample that the data determine, least squares finds that sample.",
     ["inputs"], "all samples, starting values, fit methods, one or two datasets", "one smoke test of a fit",
     [OB, TM], [("ObjectiveSE with refnx CurveFitter", OB)],
     "property-based testing: synthetic data from the reference model, independent Gauss-Newton",
     "recovery is demanded where an independent fit also succeeds")
prop("C26", "Looking at an analysis does not change it and shows what it is",
     "Printing, plotting, profiling, sampling and covariance leave data, parameters, settings and every later answer as they were. Plots draw the measured unmasked points and the model's curves and profiles, in the convention and orientation asked for.",
     ["histories", "inputs"], "all analyses and histories of observations", "plots are never tested",
     [OB, SS, PL], [("ObjectiveSE.plot", OB), ("StructureSE.plot", SS), ("plot_ellipsdata, plot_structure", PL)],
     "stateful property-based testing: snapshots before and after, contents of the axes", "histories of up to 4 observations")
prop("C27", "Analyses that share parts do not disturb each other",
     "Materials, layers, samples and models may be shared between analyses: every answer is the one a freshly built, unshared analysis gives, whatever the others were asked before and whichever Delta convention their data use. Arrays handed in are not modified, and writing to arrays handed out changes nothing.",
     ["histories"], "all sets of analyses with shared parts, all interleavings of evaluations",
     "no test evaluates two analyses alternately", [TM, SS, OB, DA, DI],
     [("ReflectModelSE.model, ObjectiveSE convention", TM), ("DataSE copies", DA)],
     "stateful property-based testing: shared world vs fresh world", "histories of up to 10 evaluations")
prop("C28", "Transfer-matrix amplitudes are the stack's and conserve energy",
     "For any stack of passive layers (including opaque, evanescent, zero-thickness layers and, with a complex angle, an absorbing ambient) the transfer matrix gives the complex s and p reflection and transmission amplitudes of the Fresnel/Maxwell solution, one per (angle, wavelength) pair of the broadcast arguments. No stack gains energy, R + T = 1 for a lossless one, and transmission is reciprocal. The arguments are not changed.",
     ["inputs"], "all stacks, angles, wavelengths and argument shapes",
     "tests look at Psi and Delta only: absolute amplitudes and transmission are never compared with anything",
     [TM], [("coh_tmm, interface_r_s/r_p/t_s/t_p", TM)],
     "property-based testing: differential against a long-double Airy recursion, energy balance and reciprocity as invariants",
     "behind opaque layers only the smallness of the transmission is judged; resonances with a denominator below 1e-5 are left out")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["row"]) + "\n")
man = dict(
    version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["row"]["id"],
                 quick_cmd=f"bash check.sh {p['row']['id']} quick",
                 thorough_cmd=f"bash check.sh {p['row']['id']} thorough",
                 evidence_file=f"evidence/{p['row']['id']}.json",
                 technique=p["tech"], level="exploration",
                 level_note="Generated-input search with shrinking; no proof. " + p["note"] + ".")
            for p in P],
    not_applicable=[],
    notes="No hooks: the checks import /repo's working tree directly.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
for p in P:
    assert len(p["row"]["title"]) <= 80, p["row"]["id"]
