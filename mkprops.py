"""Writes properties.jsonl (kept as the one editable source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PS="popsynth/population_synth.py"; PO="popsynth/population.py"; AX="popsynth/auxiliary_sampler.py"; DI="popsynth/distribution.py"; SE="popsynth/selection_probability"

p("C01","Same configuration and seed give the same survey, whatever happened before",
 "Drawing a survey from a given configuration, seed and draw arguments yields bit-for-bit the same population (every object's values, the selection, known distances, truth) in any process and after any prior activity there: other use of the global random state, other synths built, drawn or failed, samplers and selectors created, populations saved or loaded. Switching progress bars on or off, or changing logging modes, never changes what is drawn.",
 ["histories","configurations","inputs"],
 "Every configuration (spatial and luminosity distribution, selections, auxiliary graph, derived luminosity, draw arguments), every seed and every history of unrelated operations, progress/logging mode, hash seed and process in which the draw happens.",
 "Tests draw a few fixed surveys once per process and never compare two runs; the claim quantifies over what ran before and under which modes.",
 [PS,DI,"popsynth/utils/rejection_sample.py","popsynth/utils/progress_bar.py","popsynth/aux_samplers",SE,"popsynth/utils/registry.py"],
 [("seed set at the start of each survey draw",PS+":draw_survey"),("all samplers draw from the one seeded generator",DI+":draw_distance"),("progress and silent sampling branches","popsynth/selection_probability/generic_selectors.py:BernoulliSelection.draw")],
 [("global generator","numpy's process-wide random state","numpy.random"),("show_progress","global configuration flag","popsynth/utils/configuration.py")],
 ["PopulationSynth.draw_survey"])
p("C02","A redraw depends only on the current configuration, not on earlier draws",
 "Drawing again from a synth gives exactly what a newly built synth with the same current configuration, seed and draw arguments would give, whatever sequence of draws (with other flux errors, sample sizes or normalisation), parameter changes, selector and sampler replacements, and cleans (with or without reset) came before. Values, selections and the model graph left by earlier draws or removed samplers never show up in a later population.",
 ["histories"],
 "Every history of draw, reconfigure, clean, clean with reset, sampler or selector re-use (including samplers and selectors shared between synths) followed by a draw.",
 "Tests redraw only after a full reset and never compare with a fresh synth; stale state shows only for particular operation sequences.",
 [PS,AX,SE+"/selection_probability.py"],
 [("do-not-resample flags cleared per survey",AX+":draw/reset"),("selector sampled flags",SE+"/selection_probability.py:select/reset"),("clean",PS+":clean"),("graph building",PS+":_build_graph")],
 [("is_sampled","marks a sampler or selector as already drawn",AX),("graph","directed model graph",PS)],
 ["PopulationSynth.draw_survey","PopulationSynth.clean","PopulationSynth.graph"])
p("C03","An interrupted or failing draw leaves the synth as it was",
 "If a survey draw is interrupted or fails part-way (an exception or keyboard interrupt from a user-supplied sampler, selector or distribution, from random number generation, or from progress output), the exception reaches the caller and every parameter of every attached distribution, sampler and selector, and every setting of popsynth, keeps the value it had before the call. The next draw then gives exactly the survey an undisturbed synth would have given.",
 ["fault_sequences","histories"],
 "Every configuration, every point of a draw at which a callback, random-number call, progress or console write can raise, and every sequence of such failures.",
 "No test injects a failure into a draw; the window depends on where the exception strikes.",
 [PS,DI,AX,SE+"/selection_probability.py"],
 [("normalisation evaluated without touching the user's parameter",DI+":draw_distance and "+PS+":draw_survey"),("resetting before drawing",PS+":draw_survey")],
 [("parameter storage","current parameter values","popsynth/utils/meta.py")],
 ["PopulationSynth.draw_survey raising; parameters; next draw_survey"])
p("C04","Concurrent draws in one process do not affect each other",
 "When several threads draw surveys at the same time, from different synths or from the same one, each call returns exactly the population it would return if it ran alone, under every thread interleaving, and all calls finish. Saving, describing or building other synths in another thread meanwhile does not change any of them.",
 ["schedules"],
 "Every interleaving of the threads at line granularity, with any mix of configurations, seeds and concurrent non-drawing operations.",
 "Tests are single threaded.",
 [PS,DI,AX,"popsynth/utils/configuration.py"],
 [("draws serialised around the process-wide generator",PS+":draw_survey"),("per-object state",AX)],
 [("global generator","numpy's process-wide random state","numpy.random")],
 ["PopulationSynth.draw_survey from threads"])
p("C05","An object is detected exactly when it passes every attached selection",
 "In every drawn survey an object is marked selected if and only if it passes the flux selection on its own observed flux, the selection of every auxiliary sampler in the dependency graph (primary, secondary at any depth, and derived luminosity) on that object's own value, and the spatial selection on its own position; with nothing attached everything is selected. Hard bounds are inclusive and exact, probabilistic selections accept with their declared probability, and distances are reported as known exactly for detected objects that the distance selection accepts.",
 ["configurations","inputs","histories"],
 "Every combination and placement of selections (shared selector objects included), every seed and value set, boundary-equal and extreme values.",
 "Tests attach one or two selectors and check only that a survey is produced; the combination, order and per-object alignment are never checked.",
 [PS,SE+"/generic_selectors.py",SE+"/flux_selectors.py",SE+"/spatial_selection.py",SE+"/selection_probability.py",AX],
 [("conjunction of selections",PS+":draw_survey"),("each selector's draw",SE)],
 None,["Population.selection","Population.known_distances"])
p("C06","Population bookkeeping is consistent for every survey",
 "In every population, drawn, loaded or extracted, all per-object quantities have one entry per object, detected and undetected counts add up to the total, and selected and non-selected views of every quantity partition it in order; known and unknown distance indices partition the detected objects and each known distance is that detected object's distance. Sub-populations contain exactly the corresponding objects with the same aligned values (known distances included), and the exported Stan data describe exactly the detected objects with one-based indices.",
 ["inputs","histories"],
 "Every survey size including zero objects and zero detections, every selection outcome, and every chain of extract, save, load and extract again.",
 "Tests look at sizes for a few populations; alignment and chains of derived populations are not compared.",
 [PO,"popsynth/simulated_variable.py",PS],
 [("population constructor and sub-population extraction",PO+":to_sub_population"),("selected views","popsynth/simulated_variable.py"),("stan export",PO+":to_stan_data")],
 None,["Population properties","to_sub_population","to_stan_data"])
p("C07","A saved population reloads as the same population",
 "A population written to a file, or added to groups of an existing file, and loaded again has exactly the same data: object values (observed and latent) of every quantity, selection, known distances and their indices, probability, parameters, forms, name, seed, flux error, model spaces, truth, directed graph and synth description. This holds for every history of writes, overwrites, additions and reloads, also of populations that were themselves loaded or extracted, and no operation on one group changes another. A population that is copied, or pickled and sent to another process and back, is likewise the same, and later changes of one do not affect the other (a shallow copy may share its values).",
 ["histories","inputs"],
 "Every drawable population (no objects, no detections, no luminosity function, nested samplers) and every sequence of save, add, overwrite, load, extract and re-save over several files and groups.",
 "Tests check that a file can be written and read, not that what comes back is equal, and use one write per file.",
 [PO,"popsynth/utils/hdf5_utils.py"],
 [("writer and loader",PO+":_writeto/_loadfrom"),("nested dict storage","popsynth/utils/hdf5_utils.py")],
 None,["Population.writeto","addto","from_file","from_group"])
p("C08","A failed or crashed save never costs the old data or yields wrong data",
 "If saving a population or a synth description over an existing file fails (disk full, I/O error, short write) or the process or machine dies at any point, the file afterwards loads as either the complete old or the complete new content; a save that reports success has stored the new content, and a failed save reports an error. A failed addition to a multi-group file leaves the other groups loadable unchanged and does not leave a partial group that loads as a different population.",
 ["crash_points","fault_sequences"],
 "Every file-system operation of the save at which a fault or crash can strike, every old/new content pair, and sequences of faulty saves, retries and reloads.",
 "Tests never inject an I/O error or crash.",
 [PO,PS,"popsynth/utils/hdf5_utils.py"],
 [("writing beside the target and replacing it",PO+":writeto and "+PS+":write_to"),("removing the partial group",PO+":addto")],
 None,["Population.writeto","Population.addto","PopulationSynth.write_to"])
p("C09","A synth's description rebuilds a synth that draws the same survey",
 "Converting a synth to a dictionary, writing it to YAML, or saving it with a population, and building a synth from that gives one that draws the same objects, selection and truth for the same draw arguments, for any chain of such conversions. The description reflects the current configuration, converting does not change the synth, and building does not modify the dictionary it is given, so it can be used again.",
 ["configurations","histories"],
 "Every configuration built from registered parts (selections on samplers at any depth, derived luminosities, cosmological rate switch, sampler order) and every chain of dictionary, YAML and saved-population conversions.",
 "Tests build one or two synths from YAML and check that a draw works; equality of the rebuilt survey is not checked.",
 [PS,AX,"popsynth/utils/registry.py",PO,"popsynth/utils/hdf5_utils.py"],
 [("to_dict/from_dict",PS),("secondary description",AX+":get_secondary_objects")],
 None,["PopulationSynth.to_dict","from_dict","write_to","from_file","Population.pop_synth"])
p("C10","First start is safe under concurrent starts, crashes and existing settings",
 "Importing the package in any number of processes at once, with or without existing configuration and log directories, succeeds in each, and every process ends up with the same effective settings: the user's file where present, defaults for what it leaves out. A process dying at any point of its first start never makes a later start fail or use different settings, and an existing user configuration file is never modified.",
 ["schedules","crash_points"],
 "Every interleaving of file-system operations of several starting processes, every crash point, and every pre-existing state of the settings and log directories.",
 "Tests start one process with one prepared directory.",
 ["popsynth/utils/configuration.py","popsynth/utils/package_data.py","popsynth/utils/logging.py"],
 [("default configuration written once","popsynth/utils/configuration.py"),("log directory creation","popsynth/utils/package_data.py")],
 None,["import popsynth; ~/.config/popsynth/popsynth_config.yml; ~/.log/popsynth"])
p("C11","Logging modes, clocks and log-disk faults never affect results; modes restore",
 "No failure of the log files or console (disk full, write errors, unwritable or removed files, clock jumps across rotation) makes a draw, save or load fail or changes its result. After any sequence of silence, quiet, loud, debug and activate calls, activating logs after they were silenced restores the levels that were in force before the silencing, silenced logs emit nothing below critical, and the temporary console-silencing block restores levels even when its body raises.",
 ["histories","fault_sequences"],
 "Every sequence of logging mode calls, every clock jump, and every log-file or console fault at any emitted record, interleaved with draws, saves and loads.",
 "Tests call each mode once and check nothing after; no fault or clock is simulated.",
 ["popsynth/utils/logging.py"],
 [("stored and restored log state","popsynth/utils/logging.py:LoggingState"),("rotating handlers","popsynth/utils/logging.py")],
 None,["silence_logs, quiet_mode, loud_mode, debug_mode, activate_logs, silence_console_log"])
p("C12","A drawn population is a snapshot and separate objects do not interfere",
 "Nothing done after a survey is drawn (changing parameters, adding or removing samplers, selectors or model spaces, redrawing, building or drawing other synths) changes any value, truth, parameter, graph or description held by an already drawn population. Distinct distributions, samplers, selectors and synths never share parameter values, and an assignment rejected by a parameter's bounds raises and changes nothing.",
 ["histories"],
 "Every interleaving of draws with configuration changes over several synths and instances of the same class, including out-of-bounds assignments.",
 "Tests never modify a synth and then re-inspect an earlier population, nor use two instances of one class together.",
 [PO,PS,"popsynth/utils/meta.py",DI,SE+"/selection_probability.py",AX],
 [("parameter descriptors with per-object storage","popsynth/utils/meta.py:Parameter"),("population built from copies",PS+":draw_survey")],
 None,["Population properties; Parameter assignment"])
p("C13","Auxiliary samplers: each drawn once, dependencies first, all recorded",
 "For every acyclic graph of auxiliary and secondary samplers, including ones shared by several parents and ones feeding a derived luminosity, each sampler is drawn exactly once per survey, after all its secondaries, and a parent sees exactly its secondaries' values of that survey; distances, positions and, where declared, luminosities are available to samplers at any depth and are those of the survey. Every sampler in the graph, whatever its depth, appears in the population with its values and its true parameters.",
 ["configurations","histories"],
 "Every dependency graph shape (chains, fans, diamonds, several roots, derived-luminosity roots), every mix of observed and latent samplers and declared needs.",
 "Tests use chains of at most one or two secondaries and check no ordering or recording.",
 [AX,PS],
 [("recursive draw with once-only flag",AX+":draw"),("collection of secondary properties",AX+":get_secondary_properties"),("truth recording",PS+":draw_survey")],
 None,["user true_sampler/observation_sampler callbacks; Population attributes; Population.truth"])
p("C14","Drawn values follow their declared distributions",
 "The number of objects of a survey is Poisson with the integral of the declared spatial density (or the requested or normalised number), and distances, sky positions, luminosities and auxiliary values follow their declared densities within the declared bounds, for every spatial, luminosity and auxiliary distribution provided. This holds whichever sampling path is used: progress bars on or off, normalised or not.",
 ["inputs","configurations"],
 "Every provided distribution over its valid parameter domain, all seeds, both sampling paths and both normalisation settings.",
 "Tests draw a handful of values and check few supports; distributional agreement is a statement over all seeds.",
 [PS,DI,"popsynth/distributions","popsynth/aux_samplers","popsynth/utils/rejection_sample.py","popsynth/utils/spherical_geometry.py"],
 [("rejection sampling of distance",DI+":draw_distance"),("inverse transform samplers","popsynth/distributions"),("Poisson count",PS+":draw_survey")],
 None,["Population values pooled over seeds"])
p("C15","Observed values derive from each object's own latent values as declared",
 "In every survey each object's latent flux is the declared transform of its own luminosity and distance, and the observed flux is that value, scattered by the declared flux error only when one is given with a flux selection; a quantity declared unobserved has observed equal to latent and an observed one is scattered around its own latent value with the declared error. Derived luminosities are the ones computed by the attached derived sampler from that survey's values, and array operations on a population's quantities, in place or not, transform observed and latent values separately and keep the selection aligned.",
 ["inputs","configurations","histories"],
 "Every configuration, seed, flux-error setting and object, including reused synths, and every sequence of array operations on a population's quantities.",
 "Tests check that the pieces run; alignment of each object's chain is not compared.",
 [PS,AX,"popsynth/simulated_variable.py","popsynth/distributions","popsynth/aux_samplers"],
 [("flux transform and jitter",PS+":draw_survey"),("observation sampler",AX+":draw"),("array protocol","popsynth/simulated_variable.py")],
 None,["Population.fluxes, luminosities, distances, auxiliary quantities and their latent values"])
p("C16","Cosmological distances and volumes are accurate",
 "Luminosity distance, comoving distance and differential comoving volume computed for the configured flat cosmology agree with the exact integrals to the accuracy of the published approximation.",
 ["inputs"],"All redshifts and all configured density and Hubble parameters.",
 "Tests never compare with an exact integral.",
 ["popsynth/utils/cosmology.py"],[("Adachi-Kasai style approximation","popsynth/utils/cosmology.py:Cosmology")])
p("C17","Plots show the population's own data",
 "Every display of fluxes, distances, luminosities and sky positions draws exactly the corresponding quantities of the population, detected and undetected separately.",
 ["inputs"],"All populations and display functions.",
 "Tests only call the display functions.",
 [PO,"popsynth/utils/array_to_cmap.py"],[("display methods",PO+":display_*")])
p("C18","Sharing files between processes and threads loses nothing",
 "When several processes or threads save, add and load at the same time on the same files, every load that succeeds gives exactly one population or description as it was saved, and a load fails only while another operation has the file in use. Every save or addition that reports success is in the file afterwards unless a later save replaced it; one that fails raises an error and changes nothing. Once no one is saving, everything in the file loads.",
 ["schedules","crash_points"],
 "Every interleaving of saves, additions and loads of several processes and threads on shared files, with processes dying at any point.",
 "Tests save and load from one thread of one process.",
 ["popsynth/utils/hdf5_utils.py","popsynth/utils/atomic_file.py",PO,PS],
 [("one saver at a time","popsynth/utils/hdf5_utils.py:atomic_hdf5"),("atomic replacement of files","popsynth/utils/atomic_file.py")],
 None,["Population.writeto, addto, from_file, from_group; PopulationSynth.write_to, from_file"])
p("C19","Synths and populations tell which model they come from",
 "The graph of a synth, and of every population drawn from it, holds exactly the spatial and luminosity distributions (or the sampler luminosities are derived from), the observed flux, every auxiliary sampler attached directly or through others and the observed quantity of those that are observed, and exactly their dependencies, those on the distance included. A population's truth, parameters, functional forms, seed, flux error, maximum distance and model spaces are the ones in force when it was drawn. This holds after every history of changes and for saved, reloaded and extracted populations.",
 ["configurations","histories"],
 "Every configuration and every history of attaching, removing, changing, cleaning, drawing, saving and extracting.",
 "Tests never look at the graph's edges and compare a truth entry or two.",
 [PS,PO,AX,DI],
 [("graph of the model",PS+":_build_graph"),("truth and parameters recorded",PS+":draw_survey"),("stored and reloaded metadata",PO+":_writeto")],
 None,["PopulationSynth.graph; Population.graph, truth, spatial_parameters, luminosity_parameters, model spaces"])
p("C20","Hand-written descriptions and ready-made populations build the synth they mean",
 "A configuration written by hand as documented, in a YAML file or as a dictionary, builds the same synth as putting the parts together from the classes: whether optional entries are left out or left empty, numbers are written as integers, text or in scientific notation, secondary samplers are given as a name, a list or a mapping, samplers refer to one shared description, and whatever the order of entries. The same holds for the ready-made populations, with any arguments left to their documented defaults. Errors while reading the file are reported, and building does not change the dictionary.",
 ["inputs","histories","fault_sequences"],
 "Every configuration, every way of writing it down, every read error, and every later history of changes and draws.",
 "Tests read two example files and check that they build.",
 [PS,"popsynth/populations"],
 [("building from a dictionary",PS+":from_dict"),("reading a file",PS+":from_file"),("ready-made populations","popsynth/populations")],
 None,["PopulationSynth.from_file, from_dict; the classes of popsynth.populations"])
p("C21","The recorded probability of an object is that of its own draws",
 "In every survey each object's recorded probability is, up to one constant per survey, the product of the declared spatial density at its distance, the declared luminosity density at its luminosity (unless luminosities are derived) and the probabilities that samplers with a selection of their own attach to their values, all under the parameters in force. This holds after any history and on every sampling path.",
 ["inputs","configurations","histories"],
 "Every configuration, seed and history; every object of every survey.",
 "Tests never look at the recorded probabilities.",
 [PS,AX,DI],
 [("probability recorded",PS+":draw_survey"),("probability of samplers",AX+":probability")],
 None,["Population.probability"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
