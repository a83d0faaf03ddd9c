"""The listed properties (source of properties.jsonl and MANIFEST.json)."""
NOT_APPLICABLE = []
NOTES = ("Every check is property-based testing with Hypothesis over generated inputs or "
         "histories against an explicit oracle; no hooks in /repo are needed.")
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why, technique=technique, note=note,
        anchors={"files": files,
                 "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "observe_at": list(observe), "hook_needed": None}))



P("C01", "Stage resolution yields exactly the documented schedule, or an error",
  "For every collection of stages and initial arguments, building a runner yields a schedule that "
  "contains every added stage exactly once, in which each stage's inputs are available from the "
  "initial arguments or earlier stages, every run-before/run-after restriction is honoured, and a "
  "stage that changes an argument runs as soon as it can and before the other readers of that "
  "argument that become runnable with it. When no such order exists or the order is ambiguous "
  "(two stages change one argument, or produce one output, at the same time) building raises a "
  "stage resolution error, and duplicate stages or restriction markers among outputs are refused. "
  "The outcome does not depend on the order stages were added in and leaves the caller's initial "
  "arguments untouched.",
  ["inputs", "programs"],
  "all sets of stages (any number, typed inputs/outputs, mutating stages, RunBefore/RunAfter, "
  "stages without inputs or outputs), all insertion orders and all sets of initial arguments",
  "The tests resolve one two-stage chain; no test has a mutating stage, a restriction, an "
  "ambiguity or an unresolvable pipeline.",
  ["instancespace/stage_builder.py", "instancespace/stage_runner.py",
   "instancespace/stages/stage.py"],
  [("resolution loop", "StageBuilder._resolve_stages"),
   ("mutating stage rule", "StageBuilder._mutating_stages_check"),
   ("restrictions", "StageBuilder._get_ordering_restrictions")],
  "Hypothesis: generated pipelines vs an independent reference resolver, two insertion orders",
  "Generated pipelines of up to 7 stages; the reference resolver is trusted as the reading of "
  "the StageBuilder documentation.")

P("C02", "Running stages: every history gives what the latest inputs determine",
  "For every history of complete runs, iterated runs, runs until a stage and single-stage runs, "
  "each executed stage receives exactly the overriding arguments of its own call, else the latest "
  "outputs of the stages scheduled before it, else the initial arguments; overrides are not kept "
  "and a stage cannot alter data another stage or the caller sees. Running an earlier stage again "
  "discards what later schedules produced, and a stage whose prerequisites have not been run since "
  "is refused with an error without executing. Running until a stage executes everything before "
  "it and the stage itself and nothing scheduled after it.",
  ["histories", "programs"],
  "all pipelines and all finite sequences of run_all, (partially consumed) run_iter, "
  "run_until_stage and run_stage with any overriding arguments",
  "The tests run one two-stage chain once and re-run one stage once; nothing exercises rollback "
  "of mutating stages, refusal, abandoned iteration or run_until_stage.",
  ["instancespace/stage_runner.py", "instancespace/instance_space.py"],
  [("argument resolution and isolation", "StageRunner.run_stage"),
   ("rollback", "StageRunner._rollback_to_schedule_index"),
   ("bulk runs", "StageRunner.run_all/run_iter/run_until_stage")],
  "Hypothesis: generated operation histories vs a reference model of stage outputs",
  "Histories of up to 10 operations on pipelines of up to 7 stages; each stage hashes its inputs, "
  "so any wrong, stale or scribbled-on input changes the observed outputs.")

P("C03", "Options given as JSON or dictionaries are read exactly, or refused",
  "Every field of an options dictionary or JSON file, under its own or its MATLAB name in any "
  "letter case, gets exactly the value given, and every field and section not given gets its "
  "documented default; so do options built by default, apart from the sections given. Unknown "
  "sections or fields, a field given twice, and sections or contents that are not objects are "
  "refused with an error instead of being ignored. A file that is missing, unreadable, not JSON "
  "or refused gives no options.",
  ["inputs", "configurations"],
  "all options dictionaries and files (any subset of sections and fields, names in any case, any "
  "JSON values, any defect)",
  "The tests load a handful of fixed files with canonical names.",
  ["instancespace/data/options.py", "instancespace/data/default_options.py"],
  [("validation", "InstanceSpaceOptions._validate_fields"),
   ("field loading and aliases", "InstanceSpaceOptions._load_dataclass"),
   ("file entry point", "from_json_file")],
  "Hypothesis: generated option files vs an explicit table of fields, aliases and defaults",
  "Trusted: the table of fields, aliases and DEFAULT_* constants in the check.")

P("C04", "Metadata keeps every instance, feature, performance and label",
  "Metadata read from a data frame or a CSV file has, for every row and in order, its label, its "
  "source and the values of each feature and algorithm column, under the name of "
  "the column, whatever the order of the columns, the case of the headers and the number of rows. Columns that are none of these are ignored, and missing cells stay missing. A file "
  "that is missing, empty or not a table gives no metadata instead of wrong metadata.",
  ["inputs"],
  "all tables with one label column and any number of feature, algorithm and other columns, as "
  "data frame and as CSV file, and files that are no metadata",
  "The tests read two fixed files.",
  ["instancespace/data/metadata.py"],
  [("column roles", "Metadata.from_data_frame"), ("file entry point", "from_csv_file")],
  "Hypothesis: generated tables, both routes compared with the generated values",
  "Labels are words or integers; names are unique.")

P("C05", "Preprocessing drops exactly what is empty or incomplete and keeps rows aligned",
  "Preprocessing keeps exactly the selected features and algorithms that exist (all when none is "
  "selected), in the order of the data. It removes exactly the instances without any feature or "
  "without any performance and the features missing in too many of the remaining instances (a "
  "fifth or more). Every remaining value, raw value, label and source belongs to the instance and "
  "column it came from.",
  ["inputs", "configurations"],
  "all matrices with any pattern of missing values, any selections, with or without sources",
  "The tests check a few fixed matrices; none has selections and missing values together or "
  "counts at the boundary.",
  ["instancespace/stages/preprocessing.py"],
  [("selection", "PreprocessingStage.select_features_and_algorithms"),
   ("removal", "PreprocessingStage.remove_instances_with_many_missing_values")],
  "Hypothesis: generated matrices vs a reference selection and removal",
  "Cases in which nothing survives are not specified.")

P("C06", "Good, best and easy are decided per instance exactly as the options define",
  "For every instance the best performance is the largest (maximised) or smallest (minimised) "
  "measured one, the best algorithm is one that attains it (numbered from 1), and an algorithm is "
  "good exactly if its performance reaches the absolute threshold, or is within the given fraction "
  "of the best one; a missing performance is never good. The number of good algorithms is their "
  "count, and an instance is easy exactly if more than the given fraction of the algorithms is "
  "good. Raw performance is kept as given, and relative performance is the distance from the best "
  "as a fraction of it.",
  ["inputs", "configurations"],
  "all performance matrices (ties, zeros, missing values, values at the threshold) and all "
  "combinations of maximised/minimised, absolute/relative, thresholds",
  "The tests compare one dataset with MATLAB results.",
  ["instancespace/stages/prelim.py"],
  [("best algorithm and threshold", "PrelimStage._prelim"),
   ("ties", "PrelimStage._select_best_algorithms")],
  "Hypothesis: generated performances vs a per-instance reference",
  "Relative performance is non-negative; any of several tied algorithms may be best.")

P("C07", "Bounding clips outliers and normalisation standardises, invertibly reported",
  "With bounding on, each feature is limited to its median plus or minus five interquartile "
  "ranges; the reported median, range and limits are those of the feature, on or off. With normalisation "
  "on, each feature and performance is shifted, Box-Cox transformed and standardised to mean 0 and "
  "deviation 1 with exactly the reported minimum, lambda, mean and deviation; the order of values "
  "and missing values are kept, and the lambda of a feature is a most likely one. With both off "
  "nothing changes, and raw data never change.",
  ["inputs", "configurations"],
  "all feature and performance matrices with missing values, bounding/normalisation on or off",
  "The tests compare one dataset without missing values with MATLAB results.",
  ["instancespace/stages/prelim.py"],
  [("bounding", "PrelimStage._bound"), ("normalisation", "PrelimStage._normalise")],
  "Hypothesis: generated columns vs reference statistics and the inverse of the transform",
  "Columns are constant or have at least 4 distinct values.")

P("C08", "Experiments on subsets keep exactly the selected instances, in every output",
  "A fractional experiment keeps the given fraction of the instances (the same ones every time), "
  "a file-indexed one exactly the instances listed in the file (numbered from 1), and a "
  "density-based one exactly those that are not too similar to others. In every per-instance output the "
  "kept rows equal the rows of the complete experiment, in order, and labels and sources "
  "belong to them. Without a usable list, all instances are kept.",
  ["inputs", "configurations"],
  "all data, fractions, index lists (any order, repeated, out of range) and distances",
  "The tests run one fraction and one index file on one dataset and compare shapes.",
  ["instancespace/stages/prelim.py", "instancespace/utils/filter.py"],
  [("subset selection", "PrelimStage._filter"), ("row selection", "PrelimStage._run")],
  "Hypothesis: each subset experiment vs the complete experiment on the same data",
  "The fraction leaves at least one instance out.")

P("C09", "The similarity filter removes exactly what resembles an earlier kept instance",
  "Scanning the instances in order, an instance is removed exactly if it lies within the given "
  "distance of an instance kept so far in feature space and, for the types that ask for it, is "
  "also as close in performance or has the same good algorithms. It is marked as dissimilar or "
  "violating exactly according to those criteria. The uniformity is one minus the coefficient of "
  "variation of the distances between the kept instances and their nearest kept neighbours.",
  ["inputs", "configurations"],
  "all feature/performance/goodness matrices, distances and the four similarity types",
  "The tests compare one dataset per type.",
  ["instancespace/utils/filter.py"],
  [("scan", "filter_instance"), ("uniformity", "compute_uniformity"), ("entry", "do_filter")],
  "Hypothesis: generated point sets (with exact ties) vs a direct reference scan",
  "Comparisons within 1e-9 of the threshold are skipped unless they are exact.")

P("C10", "Feature selection keeps the relevant features and the rows that belong to them",
  "With feature selection on, the features kept are the best correlated one of each algorithm and "
  "every one that correlates significantly with an algorithm by at least the threshold, "
  "positively or negatively; when these are more than the number of clusters, one feature of each "
  "cluster is kept, the combination that separates good from bad instances best. With it off, or with "
  "three features or fewer, all are kept; with too few features left an error is raised. The reported "
  "correlations, indices, labels and matrix agree with the features kept, and every per-instance "
  "output belongs to the instances of the experiment.",
  ["inputs", "configurations"],
  "all features and performances, thresholds, cluster counts, with and without density filtering",
  "The tests compare parts of one dataset with MATLAB results, with a rigged genetic search.",
  ["instancespace/stages/sifted.py"],
  [("correlation", "SiftedStage.select_features_by_performance"),
   ("clusters", "SiftedStage.select_features_by_clustering"),
   ("search", "SiftedStage._find_best_combination")],
  "Hypothesis: generated data vs reference correlations, plus planted best combinations",
  "The genetic search is only required to find the best combination in planted problems with four "
  "combinations; cluster quality is not judged.")

P("C11", "The projection and everything reported about it agree, and it is (near) optimal",
  "The instance space is the features times the transposed projection matrix, and the reported "
  "error, the R2 of each feature and algorithm, the summary table and the reconstruction matrices "
  "are those of that projection. The analytic solution spans the leading principal components by least "
  "squares; the numerical one is the trial that preserves distances best, near the optimum; "
  "given starting points and given solutions are used as given. Inputs are not changed.",
  ["inputs", "configurations"],
  "all feature and performance matrices with linearly independent features, all solution modes",
  "The tests compare one dataset per mode within a loose tolerance.",
  ["instancespace/stages/pilot.py"],
  [("orchestration", "PilotStage.pilot"), ("analytic", "PilotStage.analytic_solve"),
   ("numerical", "PilotStage.numerical_solve"), ("objective", "PilotStage.error_function")],
  "Hypothesis: generated matrices vs linear algebra identities and the rank-2 optimum",
  "The numerical solution is stored with three digits; the optimum is compared within 2 %.")

P("C12", "The boundary of the space is the hull of the corners correlations allow",
  "The outer boundary is the convex hull of the projections of all corners of the ranges of the "
  "features. The correlated boundary is the convex hull of those corners that do not contradict a "
  "significant strong correlation: strongly positively correlated features are both at "
  "their minimum or both at their maximum, strongly negatively correlated ones at opposite ends. "
  "If too few corners remain to span an area, the outer boundary is used, and every "
  "instance lies within the outer boundary.",
  ["inputs", "configurations"],
  "all centred feature matrices, projection matrices, thresholds and significance levels",
  "The tests compare one dataset and three hand-made matrices.",
  ["instancespace/stages/cloister.py"],
  [("correlation", "CloisterStage._compute_correlation"),
   ("corners", "CloisterStage._generate_boundaries"),
   ("hull", "CloisterStage._compute_convex_hull")],
  "Hypothesis: generated matrices vs enumeration of the 2^n corners",
  "Up to 6 features; nearly flat hulls are skipped; the order and start of vertices are open.")

P("C13", "Algorithm models, their scores and the recommendations agree with each other",
  "For every algorithm the reported predictions and probabilities are those of the reported model "
  "with the reported hyper-parameters on the standardised space, and the cross-validated ones of "
  "every instance come from models trained without its fold; given hyper-parameters and cost "
  "weights are used. The recommended algorithm of each instance is one predicted good with "
  "the highest precision, none if no algorithm is predicted good (the second selection then falls "
  "back to the algorithm good most often), and every number of the summary table is that of the labels, performances "
  "and selections it describes. Regions that are clearly separated are learnt, "
  "independent of the units of the space and of the number of workers.",
  ["inputs", "configurations"],
  "all two-dimensional spaces, labels and performances in which every algorithm is good and bad on "
  "at least two instances; grid search or given hyper-parameters, either kernel, cost-sensitive "
  "or not",
  "The tests compare scores of one dataset within tolerances; no test looks at the rows of the "
  "summary, at selections without a good algorithm or at folds.",
  ["instancespace/stages/pythia.py", "instancespace/data/model.py"],
  [("training", "PythiaStage._fitmatsvm"), ("selection", "PythiaStage._determine_selections"),
   ("summary", "PythiaStage._generate_summary"),
   ("given parameters", "PythiaStage._check_precalcparams")],
  "Hypothesis: generated spaces; models re-trained per fold, summary recomputed, planted regions",
  "Labels within 1e-2 of the decision boundary are not compared between trainings; Bayesian "
  "optimisation (minutes per case) is not exercised; the known finding is listed.")

P("C14", "Footprints are the regions where an algorithm is good or best, uncontradicted",
  "The good, best and beta footprints of every algorithm lie within the instance space and "
  "have the area, density and purity of their outline and the instances in it; good and beta "
  "footprints are as pure as required, and where the best footprints of two algorithms overlap the "
  "less pure one gives the area up. Regions that one algorithm rules become its footprints, and "
  "fewer than three distinct instances make none. The summary holds the numbers of each footprint, "
  "also relative to the whole space, and nothing depends on the order of the instances, the number "
  "of workers, or on measured results when simulated ones are asked for (and vice versa).",
  ["inputs", "configurations", "schedules"],
  "all instance spaces with labels, purity thresholds, simulated or measured labels and any number "
  "of workers",
  "The tests compare one dataset with MATLAB results.",
  ["instancespace/stages/trace.py", "instancespace/data/model.py"],
  [("footprints", "TraceStage.build"), ("contradictions", "TraceStage.contra"),
   ("purity", "TraceStage.tight"), ("summary", "TraceStage.summary")],
  "Hypothesis: generated spaces; outline recounting, permutation relation, planted regions",
  "Counts may differ by instances within 1e-6 of an outline.")

P("C15", "A footprint's numbers are those of its outline",
  "For every outline and set of instances, a footprint reports the area of the outline, the number "
  "of instances strictly inside it, the number of good ones among them, the density (instances "
  "per area) and the purity (fraction of good ones). An outline that is absent or empty gives an "
  "empty footprint with zeros. Smoothing closes gaps and rounds corners by at most its width, and "
  "the numbers are those of the smoothed outline.",
  ["inputs"],
  "all valid outlines (several parts, holes, thin, empty) and instances anywhere, on edges and "
  "corners too",
  "The tests build footprints of one dataset.",
  ["instancespace/data/model.py"],
  [("numbers of a footprint", "Footprint.from_polygon")],
  "Hypothesis: integer outlines and instances vs an exact even-odd point-in-polygon oracle",
  "Smoothing is compared within 0.03.")

P("C16", "Footprint clustering groups exactly the instances connected to a dense one",
  "Instances that are connected by steps of at most the radius form one cluster exactly if one of "
  "them has at least the required number of neighbours within the radius, and are noise otherwise; every "
  "instance gets one label and clusters are numbered from 1 without gaps. The radius is that of a ball that "
  "holds the required number of instances if they filled their bounding box. The required number "
  "of neighbours is a twentieth of the good instances, at least 3 and at most 50.",
  ["inputs"],
  "all point sets (duplicates, ties with the radius), neighbourhood sizes and radii",
  "The tests cluster one dataset.",
  ["instancespace/stages/trace.py"],
  [("clustering", "TraceStage.dbscan"), ("radius", "TraceStage.epsilon"),
   ("neighbourhood", "TraceStage.run_dbscan")],
  "Hypothesis: generated point sets (integer grids with exact ties) vs a reference",
  "As in the original, a point reached from a cluster is followed further.")

P("C17", "The CSV files of a model hold its data, row by row and column by column",
  "Saving a model to CSV writes every documented file, and each file holds exactly the "
  "values of the model under the right instance and column labels: coordinates, "
  "raw and processed features and performances, good and best algorithms, selections, projection matrix, "
  "boundaries, footprint outlines, and summaries. Saving does not change the model. A folder that does "
  "not exist is refused.",
  ["inputs"],
  "all models (any labels, values, footprints of several parts or none)",
  "The tests compare a few files of one dataset.",
  ["instancespace/_serialisers.py", "instancespace/model.py"],
  [("csv files", "save_instance_space_to_csv"), ("tables", "_write_array_to_csv")],
  "Hypothesis: generated models; every file read back and compared with the model",
  "Labels without line breaks.")

P("C18", "The colours exported for the web scale values to 0..255, per column or overall",
  "For every model, the colour tables for the web hold, for each instance and each feature or "
  "performance column, the value scaled linearly so that the smallest value of the column (or of "
  "the whole table, for the global tables) is 0 and the largest is 255, under the right labels. Data that "
  "do not vary get a valid colour. The colour table holds the 256 colours of the map in order, and "
  "the model is not changed.",
  ["inputs"],
  "all models without missing values",
  "The tests only check that the files exist or compare one dataset.",
  ["instancespace/_serialisers.py"],
  [("colour scales", "_colour_scale, _colour_scale_g"),
   ("tables", "save_instance_space_for_web")],
  "Hypothesis: generated models vs exact rational scaling",
  "Rounding may go either way within 1e-9 of a step.")

P("C19", "The archive holds every output file unchanged, and the MATLAB file the labels",
  "Archiving an output folder packs every file in it and its subfolders, byte for byte, under the "
  "folder name the dashboard expects, except the archive itself and the ignore file, and repeating it "
  "gives the same content. The files in the folder stay as they were. The MATLAB file holds "
  "the labels of the algorithms in order.",
  ["inputs", "histories"],
  "all folders of files with distinct names, archive names and algorithm labels",
  "The tests archive one folder and compare the number of files.",
  ["instancespace/model.py", "instancespace/_serialisers.py"],
  [("archive", "Model.save_zip"), ("MATLAB file", "save_instance_space_output_mat")],
  "Hypothesis: generated folders, archives read back",
  "File names are distinct across folders: the archive is flat by design.")

P("C20", "Every plot shows the right values at the right coordinates",
  "Saving the plots writes one figure per feature, algorithm and summary. Each shows every instance at its "
  "coordinates with the value or group it is titled with: normalised features, individually and globally "
  "scaled performance, good or bad, sources, selected and best algorithms, easiness; and "
  "each footprint figure shows the outlines of the algorithms it is labelled with, in the colour "
  "of their instances. Groups differ in colour and are named in a legend, values have a scale, and "
  "no instance lies outside of the axes. Plotting does "
  "not change the model, and a folder that does not exist is refused.",
  ["inputs"],
  "all models, also with missing or negative performance, many algorithms, and with, without or with some missing sources",
  "The tests only check that files were written.",
  ["instancespace/_serialisers.py"],
  [("plots", "save_instance_space_graphs"), ("portfolio", "_draw_portfolio_selections, "
    "_draw_portfolio_footprint"), ("footprints", "_draw_footprint, _draw_good_bad_footprint")],
  "Hypothesis: generated models; figures taken apart as they are saved",
  "Sizes, axes and the colours of groups are not checked.")

P("C21", "A build is the whole analysis of the data, repeatable, inputs intact",
  "Building an instance space runs every stage once, each with its own section of the options and "
  "the outputs of the stages before it, and gives the same model whether it is built again, "
  "iterated or run stage by stage; metadata and options are not changed. In the model every row "
  "of every table belongs to the instance it is labelled with, coordinates are the projected "
  "features, good, best and easy follow from the raw performance, and best and recommended "
  "algorithms are counted from 1. Names, sources, empty instances, unselected columns, "
  "output and parallel settings do not change any number, an option changes nothing "
  "that is computed before its stage, and data are bounded and normalised only if automatic "
  "pre-processing is on.",
  ["inputs", "histories"],
  "all metadata and options with which every algorithm is good on some and bad on other "
  "instances",
  "The tests run single stages on stored inputs; none compares a complete build with anything.",
  ["instancespace/instance_space.py", "instancespace/model.py", "instancespace/data/model.py",
   "instancespace/data/options.py"],
  [("build, iterated and partial runs", "InstanceSpace.build/run_iter/run_stage/run_until_stage"),
   ("wiring of options", "_InstanceSpaceInputs.from_metadata_and_options, "
    "PrelimOptions.from_options"),
   ("wiring of the model", "Model.from_stage_runner_output and the parts in data/model.py")],
  "Hypothesis: generated builds vs the stages called by hand, and metamorphic pairs of builds",
  "About 40 compositions, 24 stepwise runs and 64 related pairs of builds per quick run, 30-60 "
  "instances each; footprints of measured results are a known finding.")

P("C22", "An instance space read from files is that of the table and settings in them",
  "An instance space made from a metadata file and an options file, or from a folder that holds "
  "metadata.csv and options.json, has exactly the metadata and the options in those two files, "
  "and building it gives the model of the same data in memory. Other files beside them have no "
  "say and no file is changed. If the metadata or the options cannot be read there is no "
  "instance space.",
  ["inputs"],
  "all metadata tables, option files and folders, including missing and unusable ones",
  "No test reads an instance space from files or a folder.",
  ["instancespace/instance_space.py", "instancespace/data/metadata.py",
   "instancespace/data/options.py"],
  [("two files", "instance_space_from_files"), ("folder", "instance_space_from_directory")],
  "Hypothesis: generated files vs their contents; builds from files vs builds in memory",
  "About 1600 pairs of files and 24 builds per quick run.")

P("C23", "Custom stages run once, where their inputs and restrictions put them",
  "An instance space with custom stages beside, instead of or without some of the usual ones runs "
  "each stage exactly once, in the order its inputs, outputs and restrictions demand and whatever "
  "order they are listed in, and each sees exactly the arguments as they are at that point. A "
  "stage that only observes leaves every other result as it is without it; one that changes an "
  "argument has that effect on exactly the stages after it, and never on the caller's data. Stages "
  "that cannot be put in order are refused with a stage resolution error when the instance space "
  "is made.",
  ["inputs", "programs"],
  "all metadata, options and sets of custom stages that are functions of their inputs",
  "No test gives an instance space a stage of its own.",
  ["instancespace/instance_space.py", "instancespace/stage_builder.py",
   "instancespace/stage_runner.py", "instancespace/stages/stage.py"],
  [("stages of an instance space", "InstanceSpace.__init__"),
   ("resolution", "StageBuilder.build"), ("arguments", "StageRunner.run_stage")],
  "Hypothesis: generated custom stages among the real ones vs an independent resolver",
  "About 560 pipelines of up to 10 stages per quick run; stages are run by hand as reference.")

P("C24", "The model of an instance space is that of its latest complete run",
  "After any history of builds, iterated, partial and single-stage runs the model of an instance "
  "space holds, in each of its parts, exactly what the stages gave in the latest complete run, with "
  "the options of the space; without a complete run there is none, and asking for it is refused "
  "with an error. A model once given never changes, runs of another instance space have no say, "
  "overriding arguments are for the one run they are given to, and the first stage always gets the "
  "metadata of the space and each section of its options.",
  ["histories", "inputs"],
  "all histories of build, run_iter, run_until_stage, run_stage and reads of the model, on any "
  "number of instance spaces, with stages that give other results every time or fail",
  "The tests build one instance space once, if at all, and never read the model twice.",
  ["instancespace/instance_space.py", "instancespace/model.py", "instancespace/data/model.py",
   "instancespace/stage_runner.py"],
  [("model and runs", "InstanceSpace.model/build/run_iter/run_until_stage/run_stage"),
   ("arguments", "_InstanceSpaceInputs.from_metadata_and_options"),
   ("parts of the model", "Model.from_stage_runner_output")],
  "Hypothesis: generated histories with stand-in stages vs a model of the latest complete run",
  "About 3000 histories of up to 9 operations on one or two instance spaces per quick run; the "
  "stages are stand-ins that give other values each time.")
