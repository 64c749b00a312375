"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Ideal titrations return the alkalinity and EMF0 they were made with",
 "Solving a noise-free titration that follows the seawater acid-base model returns the alkalinity it was made with and, where EMF0 is free to vary, the EMF0 it was made with, to well within 0.1 umol/kg. This holds in every solve mode except the Gran-only one, whatever the analyte (salinity, temperature drift, DIC, nutrients, extra acid-base components), the titrant (HCl, sulfuric acid and other titrants that carry a buffering component), the units and the PyCO2SYS options, and equally for arrays, single files and datasets.",
 ["inputs","configurations"], "all analyte compositions, titrants, units, titration schedules with points in the pH window, solve modes and options",
 "The suite solves a handful of stored titrations and one simulated one; the combination of components, titrants, units, modes and options is never varied.",
 ["calkulate/core.py","calkulate/files.py","calkulate/dataset.py","calkulate/simulate.py","calkulate/convert.py","calkulate/interface.py"],
 [("complete-calculation least squares","core.solve_emf"),("mean over the pH window","core.solve_pH"),("alkalinity equation","simulate.alkalinity")],
 ["alkalinity and emf0 returned by calkulate.core.solve_*, calkulate.files.solve and the dataset columns"])

prop("C02", "Calibration is the inverse of solving",
 "Calibrating a titration against a certified alkalinity gives a titrant molinity with which solving the same titration with the same settings returns that certified value, in every solve mode and for every titrant, including titrants that add sulfate, phosphate or fluoride and titrants with a normality other than 1. For a noise-free titration the calibrated molinity is the true one. Neither operation alters the titration data it is given.",
 ["inputs","configurations"], "all titrations (noisy and noise-free), certified values, modes, titrants and solver settings",
 "Tests calibrate a few stored files with one mode and default titrant and look at mean offsets.",
 ["calkulate/core.py","calkulate/files.py","calkulate/dataset.py"],
 [("outer least squares on molinity","core.calibrate_emf / calibrate_pH / calibrate_pH_gran"),("adding and removing titrant-borne totals","core.add_titrant_totals")],
 ["calibrated molinity, alkalinity re-solved with it, alkalinity_offset in datasets"])

prop("C03", "Solved values are the best fit over exactly the points in the pH range",
 "For any measured data, noisy or not, the points reported as used are exactly those whose pH lies between pH_min and pH_max inclusive (with pH from the EMF0 the final solve started from), and the reported alkalinity (and EMF0, where free) is the least-squares best fit, or in pH mode the mean, over exactly those points. The reported number of points, standard deviation, pH and point-by-point alkalinity follow from that solution, and turning double solving on uses the first solution to choose the points of the second.",
 ["inputs","configurations"], "all titration data including noise, outliers, gaps and points on the window edge; all windows, initial guesses and double on or off",
 "Tests compare final numbers of a few stored titrations; none checks which points were used or the optimality of the fit.",
 ["calkulate/core.py","calkulate/dataset.py"],
 [("window mask","core.solve_emf / solve_pH"),("least squares","core.solve_emf"),("second solve","core.solve_emf double")],
 ["fields of the solver results; alkalinity, alkalinity_std, alkalinity_npts, emf0, pH_init, temperature_init columns"])

prop("C04", "Speciation conserves mass, obeys mass action and sums to alkalinity",
 "For any pH, total contents and equilibrium constants, the computed concentrations of every acid-base system obey its equilibrium constants and add up to its total, on the Free, Total and Seawater pH scales. The alkalinity is the sum of the components with the conventional zero level of protons (pK 4.5), agrees with PyCO2SYS on the Free scale (and, above pH 6, on the others), and rises with pH.",
 ["inputs"], "all pH, totals, constants, pH scales, scalars and arrays, and subsets of components",
 "Tests compare a few points with PyCO2SYS; they do not vary components, zero level or scales systematically.",
 ["calkulate/simulate.py"],
 [("component formulae","simulate.alkalinity_components"),("sign and weight of each component","simulate.component_multipliers")],
 ["calkulate.simulate.alkalinity_components, calkulate.simulate.alkalinity"])

prop("C05", "EMF, pH and dilution conversions are exact inverses and conserve substance",
 "Converting between EMF, hydrogen ion content and pH follows the Nernst equation at the given temperature, and every conversion is undone by its inverse for any EMF0. Diluting contents with titrant conserves the amount of every substance, including the sulfate brought by sulfuric acid, leaves salinity and other non-contents alone, and does not alter its inputs.",
 ["inputs"], "all temperatures, EMF0 values, contents, analyte masses and titrant masses, scalars and arrays",
 "Two tests convert a few random values at a time; dilution helpers are untested.",
 ["calkulate/convert.py","calkulate/constants.py","calkulate/core.py"],
 [("Nernst relation","convert.emf_to_h / h_to_emf / emf_to_pH / pH_to_emf / f_to_demf0"),("dilution factor","convert.get_dilution_factor, dilute_totals*, totals_to_pyco2"),("titrant-borne totals","core.add_titrant_totals")],
 ["return values of the calkulate.convert functions and of core.add_titrant_totals"])

prop("C06", "How amounts and temperature are expressed does not change the result",
 "The same titration gives the same converted masses and the same results whether its titrant amounts are in ml, g or kg, whether its analyte is given by mass or by volume, and whether its temperature comes from the file or an override, using the published seawater, HCl-NaCl or H2SO4 density unless a titrant density is given. Where both mass and volume are given the mass is used. The density functions follow their published equations and warn outside their range of validity.",
 ["inputs","configurations"], "all amounts, units, densities, acid strengths, salinities, temperatures and combinations of optional metadata",
 "Tests check each density at one or two values and use one unit per stored file.",
 ["calkulate/convert.py","calkulate/density.py"],
 [("unit conversion","convert.amount_units"),("densities","density.seawater_1atm_MP81, HCl_NaCl_25C_DSC07, H2SO4_25C_EAIM")],
 ["calkulate.convert.amount_units output; solved results for re-expressed files"])

prop("C07", "Totals and constants match PyCO2SYS and honour user-given values",
 "Total salt contents and equilibrium constants used through a titration equal those of PyCO2SYS for the same salinity, temperature and options, with totals diluted by the titrant and with every content or constant the user provides used exactly as provided. Constants respond to titrant dilution only when that is asked for.",
 ["inputs","configurations"], "all salinities, temperature profiles, option combinations, subsets of user-given contents and constants (including zero), dilution choices",
 "Tests use default options and at most one override.",
 ["calkulate/interface.py","calkulate/core.py","calkulate/dataset.py"],
 [("totals","interface.get_totals"),("constants","interface.get_k_constants"),("assembly through the titration","core.totals_ks"),("dataset salts","dataset.get_total_salts")],
 ["totals and k_constants returned by core.totals_ks and in solver results; total_* dataset columns"])

prop("C08", "Titration files are written and read back faithfully",
 "Titration data written to a file are read back in the same order and to the precision written, and by default an existing file is never overwritten. Every supported file format and layout option (columns, delimiter, header lines, number of columns, encoding) returns every data row of the titration and nothing else, with exact values, whatever surrounds the data in the file; an unknown format falls back to the default one with a warning.",
 ["inputs","configurations"], "all data values (including negative), numbers of rows, number formats, layouts, and surrounding file contents",
 "Tests only check that a few stored files can be read, by type and shape.",
 ["calkulate/read/titrations.py"],
 [("writer","read.titrations.write_dat"),("readers","read.titrations.read_dat_genfromtxt / read_dat_pclims / read_tiamo_de"),("dispatch","read.titrations.read_dat")],
 ["files written by calkulate.write_dat; arrays from calkulate.read_dat; errors for existing files"])

prop("C09", "Titrations in a dataset are independent and failures stay contained",
 "The result for one titration in a dataset does not depend on which other titrations are present, on their order or on the index, except through the shared batch molinity. A titration that cannot be processed (missing, empty, truncated or corrupt file, unusable metadata, marked bad, no molinity) gets missing results and no used points, and every other titration gets exactly the results it would have had without it.",
 ["inputs","fault_sequences"], "all datasets, row orders, indexes, and all placements and kinds of faulty titrations",
 "Tests run stored datasets once in stored order with at most naturally missing files.",
 ["calkulate/dataset.py","calkulate/files.py"],
 [("row-wise processing with exception handling","dataset.solve_row / calibrate_row"),("index-aligned assignment","dataset.solve / calibrate")],
 ["dataset result columns"])

prop("C10", "Batch titrant molinity is the mean over the batch's good references",
 "After calibration every titration's molinity is the mean of the individually calibrated molinities of exactly those references in its own batch that have a certified value, a usable good file and are not marked as bad references, and is missing if there are none. Individually calibrated molinities are reported for every usable reference, good or bad, and for nothing else, and the batch statistics (mean, standard deviation, count) agree with them.",
 ["inputs","configurations"], "all datasets, batch labellings, reference and file flags, missing values and faulty references",
 "Tests calibrate stored datasets with one or few batches and no bad references.",
 ["calkulate/dataset.py"],
 [("per-row calibration","dataset.calibrate_row"),("group mean","dataset.get_group_calibration / get_batches"),("mapping back by batch","dataset.calibrate")],
 ["titrant_molinity_here, titrant_molinity, alkalinity_offset columns; calkulate.dataset.get_batches"])

prop("C11", "Each setting comes from the row, else the kwargs, else the default",
 "For every setting of a titration, a value in its dataset row is used in preference to a keyword argument, which is used in preference to the documented default; a missing value in the row counts as not given. Giving a setting as a column, as a keyword argument or in its old-style spelling (pH_range, read_dat_kwargs, read_dat_method) is equivalent, and processing a dataset equals processing its files one by one with the same settings. Keyword arguments of a dataset that do not exist are reported in a warning, and neither they nor extra columns change anything.",
 ["inputs","configurations"], "all settings, all splits of them between row, keyword arguments and defaults, over datasets of any size, for calibrating and solving",
 "Tests pass two or three settings, always one way.",
 ["calkulate/dataset.py","calkulate/files.py","calkulate/meta.py","calkulate/classes.py"],
 [("merge of kwargs and row","meta._get_kwargs_for"),("old-style kwargs","dataset._backcompat"),("filled-in columns","dataset.prepare / get_total_salts"),("routing of settings to functions","files.keys_*")],
 ["dataset result columns versus calkulate.files.solve / calibrate and calkulate.core results"])

prop("C12", "A Titration object agrees with its dataset row and with itself",
 "A Titration made from a dataset row, with or without overriding keyword arguments, has the same alkalinity, EMF0, Gran estimates and other results as the dataset with those settings. Its table has one line per measurement holding the data, constants and totals actually used; the speciation in each line is consistent with its pH and totals, and the alkalinity expected from the acid added and that computed from pH agree with the solution and the per-point estimates.",
 ["inputs","configurations"], "all dataset rows, settings, modes, titrants and keyword overrides",
 "One test compares one row's alkalinity and EMF0.",
 ["calkulate/classes.py"],
 [("solve from row","classes.Titration.__init__"),("table columns","classes.Titration.get_alkalinity_from_acid / do_CO2SYS"),("attribute access","classes.Titration.__getattr__ / __getitem__")],
 ["Titration attributes and Titration.titration table"])

prop("C13", "Results depend only on current inputs, never on what was run before",
 "After any sequence of calibrating, solving, making Titrations and editing metadata, running again gives the same results as a fresh dataset with the same metadata would give. Nothing the user provided (columns, index, row order, keyword arguments, arrays, files, row objects) is changed by running, other than filling missing values with the defaults used.",
 ["histories"], "all sequences of operations and metadata edits on a dataset, and all interleavings of independent calls",
 "Tests run each operation once or twice on one dataset with no edits in between.",
 ["calkulate/dataset.py","calkulate/classes.py","calkulate/core.py","calkulate/convert.py","calkulate/loss.py"],
 [("columns recomputed on each run","dataset.calibrate / solve"),("defaults filled in","dataset.prepare")],
 ["dataset columns after each step; inputs compared before and after"],
 [("filled-in columns","opt_total_borate, total_sulfate, total_borate, total_fluoride, reference_good, analysis_batch, file_good persist in the dataset between runs","dataset.prepare / calibrate")])

prop("C14", "Metadata imports keep every row and predict names and dates correctly",
 "Importing a VINDTA .dbs file keeps every row in order with its values, predicts the titration file name of every bottle (using the given format) and CRM row from its own fields exactly as written, gives CRM rows their certified alkalinity, marks other run types as not good, and parses each date and time. The analyte amount and file path given are applied to every row, and the other importers return exactly the table pandas reads, as a dataset.",
 ["inputs","configurations"], "all dbs tables (run types, bottle and batch labels, gaps, dates, extra columns), formats and arguments; all tables for the other importers",
 "Tests import two stored dbs files and check type and final alkalinities.",
 ["calkulate/read/metadata.py"],
 [("dbs import","read.metadata.read_dbs"),("file names","read.metadata.get_VINDTA_filenames"),("dates","read.metadata.dbs_datetime")],
 ["the imported Dataset"])

prop("C15", "Physically equivalent titrations give equivalent results",
 "Adding a constant to every EMF changes the EMF0s by that constant and nothing else (Gran estimates: when the temperature is constant); scaling the analyte and titrant amounts together changes nothing but the masses; dividing the titrant molinity and multiplying its normality (and what else it carries per mole of titrant) by the same factor changes nothing; and early points that neither the pH window nor the Gran fit uses can be removed without changing the solution. This holds for any data, in every solve mode to which the change applies, for solving and for calibrating.",
 ["inputs","configurations"], "all titrations (noisy or not), offsets, scale factors and modes",
 "No test compares two related titrations.",
 ["calkulate/core.py","calkulate/files.py","calkulate/convert.py"],
 [("equations depend on EMF - EMF0, mass ratios and molinity times normality","core.solve_emf, core.gran_*, convert.emf_to_pH")],
 ["solver results for pairs of related titrations"])

prop("C16", "Plots show exactly the data they are given",
 "Every titration plot draws each measurement once, at its own titrant mass and value, marked used or unused as solved, with the final or Gran result, pH window and titles matching the solution; component plots show each alkalinity component of the table. Dataset plots draw every reference's molinity or offset at its own position, split into good and bad, and one line per batch at the batch value. Plotting never alters what is plotted.",
 ["inputs","configurations"], "all solved titrations and datasets, axis variables, and plot options",
 "Tests only call some of the plots without looking at them.",
 ["calkulate/plot/titration.py","calkulate/plot/__init__.py"],
 [("scatter of used and unused points","plot.titration.*"),("good / bad split and batches","plot.titrant_molinity / alkalinity_offset")],
 ["artists on the returned axes"])

prop("C17", "Simulated titrations and the DIC-loss model obey dilution and gas loss",
 "A simulated titration has the requested titrant steps, a mixture alkalinity equal to the analyte's less the acid added, totals and DIC diluted by the titrant, and EMFs given by the equilibrium pH, and solving it returns the alkalinity and EMF0 requested. With DIC loss, each step loses DIC in proportion to the fCO2 excess over air and to the step size, zero loss is pure dilution, and the fitted loss model follows the same recursion, recovers the loss constant it was given data for, and leaves its inputs unchanged.",
 ["inputs","configurations"], "all compositions, step sizes, temperatures, loss constants and air fCO2 values",
 "Tests simulate one or two titrations with default steps and no loss.",
 ["calkulate/simulate.py","calkulate/loss.py"],
 [("simulation","simulate._titration"),("loss model","loss.dic_loss_model_fitted / dic_loss_model_future / get_dic_loss_hires / get_dic_loss")],
 ["return values of calkulate.simulate._titration and the calkulate.loss functions"])

prop("C18", "Gran estimates follow the Gran equations over the documented points",
 "The Gran function, Gran alkalinity, Gran EMF0 and first-guess pH reported for any titration are those of the published equations, fitted over the points the chosen rule selects (from the first point above 10% of the maximum onwards by default, strictly between 10% and 90% of the maximum with the legacy rule), accounting for titrant normality and temperature. The pH Gran mode fits exactly the points in the pH window, and for a titration of a strong base the Gran results are exact.",
 ["inputs","configurations"], "all titrations, noisy or not, both point-selection rules, normalities, temperature profiles and windows",
 "Tests compare Gran results for one stored dataset with old values.",
 ["calkulate/core.py","calkulate/dataset.py"],
 [("Gran function and regression","core.gran_function / gran_alkalinity / gran_emf0s / gran_guesses"),("pH Gran mode","core.solve_pH_gran")],
 ["fields of core.gran_* results and solver results; gran_alkalinity and gran_emf0 columns"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=True) + "\n" for p in P))
print(len(P))
