"""The properties, with how each is decided."""


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         level_note, observe=None):
    anchors = {"files": files, "mechanism": [
        {"name": n, "where": w} for n, w in mechanism]}
    if observe:
        anchors["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors,
            "technique": technique, "level_note": level_note}


NOT_APPLICABLE = {
    "P24": "pure functions of arrays: no concurrency, time, I/O, randomness "
           "or second party for the result to depend on, so that a simulation "
           "would be nothing but property-based testing; the one that the "
           "estimation of simulators uses (durations of states) is decided "
           "under P23",
}

PROPERTIES = [
    prop("P01", "Cached datasets survive crashes, disk errors and full disks",
         "Whenever a program that loads data through a dataset loader is "
         "killed, loses power, or meets a disk error or a full disk at any "
         "point, no later load ever returns anything other than what the "
         "dataset's parser produced. Once the faults stop, creating the "
         "loader and loading every item succeeds, and from then on the item "
         "loads without raw data.",
         ["crash_points", "fault_sequences", "histories"],
         "every kind of loadable item, every operation on the disk at which "
         "the fault may hit, every sequence of program lives",
         "The tests load data on a healthy disk; the damage depends on where "
         "among the file operations the program stops.",
         ["demod/datasets/base_loader.py", "demod/datasets/tou_loader.py",
          "demod/utils/sparse.py", "demod/utils/file_helpers.py",
          "demod/datasets/CREST/loader.py"],
         [("parsed data cache", "DatasetLoader._save_parsed_data and the "
           "load_* methods of the loaders"),
          ("atomic replacement", "replace_on_success")],
         "seeded crash, torn-write, power-loss, EIO and ENOSPC faults at the "
         "simulated disk below the real loaders, then recovery lives",
         "real loaders and serialisation over a simulated disk; the parsers "
         "are synthetic; seeded search"),
    prop("P02", "Loading is transparent: the cache never changes what a user gets",
         "Whatever was loaded before, in this program or an earlier one, in "
         "whatever order and for whatever other items, versions, activities "
         "or datasets, loading an item returns exactly the content its own "
         "parser produces for its own arguments, and parses the raw data at "
         "most once until the parsed data is cleared. Clearing the parsed "
         "data of one version or dataset makes that one be parsed again and "
         "leaves all others alone.",
         ["histories", "inputs", "configurations"],
         "every sequence of loads and clears over items, subgroups, "
         "versions, activity types and datasets, across program restarts, "
         "with the datasets of the package among them",
         "Whether two items collide in the cache depends on the pair of "
         "items and on their order, of which tests sample very few.",
         ["demod/datasets/base_loader.py", "demod/datasets/tou_loader.py",
          "demod/utils/subgroup_handling.py", "demod/utils/sparse.py"],
         [("cache naming", "subgroup_string and the file names of load_*"),
          ("clearing", "DatasetLoader._clear_parsed_data")],
         "seeded histories of loads, clears and restarts of the real loaders "
         "over synthetic parsers, with raw data disappearing, against a "
         "dictionary as reference model",
         "reference model comparison after every step; seeded search"),
    prop("P03", "Downloaded data is complete, right, and fetched only when needed",
         "Whatever the network and the disk do while a hosted dataset is "
         "downloaded, and wherever the program is killed, a load that "
         "succeeds returns exactly the content the server had for the "
         "requested item, never a part, a mixture or another item, and once "
         "the faults stop the next use succeeds. A dataset which was used "
         "successfully is used again without contacting the server, and a "
         "requested update which succeeds returns what the server had then.",
         ["fault_sequences", "crash_points", "histories"],
         "every hosted dataset, every sequence of connection failures, cut "
         "or reset transfers, HTTP errors, kills and disk faults, every "
         "order of uses, updates and changes on the server",
         "No test downloads anything; the failures need a transfer or an "
         "extraction that stops half-way.",
         ["demod/datasets/RenewablesNinja/loader.py",
          "demod/datasets/GermanTOU/loader.py",
          "demod/datasets/tracebase/loader.py",
          "demod/datasets/CREST/loader.py",
          "demod/datasets/Germany/loader.py",
          "demod/datasets/DESTATIS/loader.py",
          "demod/utils/file_helpers.py"],
         [("download", "demod/utils/file_helpers.py download"),
          ("archive extraction", "extract_zip"),
          ("update of raw data",
           "NinjaRenewablesClimate._check_download_raw_file, Tracebase, "
           "GTOU._clear_parsed_data")],
         "simulated servers and network (refusal, timeout, reset, "
         "truncation, HTTP errors, chunking) and simulated disk under the "
         "real loaders, over several program lives",
         "real download, extraction and parsing code; contents partly "
         "synthetic; seeded search"),
    prop("P04", "Programs sharing a dataset do not disturb each other",
         "When several programs start and load data from the same datasets "
         "at the same time, in whatever interleaving of their file "
         "operations and even if some of them are killed or stalled, every "
         "surviving program succeeds and gets exactly the data it would get "
         "alone. Afterwards the data loads correctly without raw data.",
         ["schedules", "crash_points"],
         "every interleaving of the file operations of two to four programs "
         "with overlapping items, which are cached, parsed or downloaded "
         "first, every point at which one is killed",
         "Tests run one program at a time.",
         ["demod/datasets/base_loader.py", "demod/datasets/tou_loader.py",
          "demod/utils/file_helpers.py", "demod/utils/sparse.py"],
         [("directory creation", "make_directory"),
          ("replacement of cached files", "replace_on_success"),
          ("download and extraction", "download, extract_zip")],
         "seeded scheduler over simulated processes sharing the simulated "
         "disk, with kills and stalls",
         "processes are threads switched at file operations by a seeded "
         "scheduler; seeded search"),
    prop("P05", "Simulated time is exact",
         "A simulation asked to start at a given time shows exactly that "
         "time once it is created, whatever its step size, its time zone and "
         "the earlier time of day it is warmed up from, and the warm-up runs "
         "exactly the whole steps from the last such time up to the start, "
         "with the inputs of the user. From then on every step advances the "
         "time by exactly one step size and the step counter by one; "
         "initialising from a time after the start is refused.",
         ["inputs", "configurations", "histories"],
         "every start date and time zone, step size, initialisation rule and "
         "simulator, every number of steps, and clocks moved by the user",
         "The tests start at few dates, mostly the ones where the warm-up is "
         "trivial; off-by-one errors need particular pairs of start time and "
         "initialisation time.",
         ["demod/simulators/base_simulators.py",
          "demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/simulators/weather_simulators.py",
          "demod/simulators/appliance_simulators.py",
          "demod/simulators/heating_simulators.py"],
         [("clock", "TimeAwareSimulator.__init__ and step"),
          ("warm-up", "TimeAwareSimulator.initialize_starting_state")],
         "simulated clocks at seeded dates, zones and step sizes with clock "
         "jumps, compared with datetime arithmetic at every step",
         "real simulators; data mostly synthetic; seeded search"),
    prop("P06", "Calendar callbacks fire exactly when the day changes",
         "For user-defined simulators, every callback registered for the "
         "data refresh time, for midnight or for 4 am is called exactly once "
         "in each step that crosses the corresponding moment and in no other "
         "step, before or after the step as it was asked, whatever the date, "
         "the step size, the stacking order of the callbacks and the "
         "warm-up. The decorated step keeps its arguments and its result. "
         "A midnight or 4 am callback belongs to the step from t to t+s if "
         "the moment lies in (t, t+s], a refresh callback if it lies in "
         "(t-s, t].",
         ["inputs", "configurations", "histories"],
         "every start date (ends of months and years included), step size, "
         "refresh time, set and order of callbacks, clocks moved by the user",
         "The tests cross one midnight in the middle of a month with steps "
         "that hit the moments exactly.",
         ["demod/simulators/base_simulators.py"],
         [("callbacks", "Callbacks.before_refresh_time, "
           "after_refresh_time, before_next_day, after_next_day, "
           "before_next_day_4am, after_next_day_4am and the old functions "
           "before_next_day_callback...")],
         "simulated clocks with jumps and seeded step sizes, the trace of "
         "callbacks compared with a calendar model",
         "real callbacks in a user-defined simulator; seeded search"),
    prop("P07", "Observing a simulation never changes it",
         "Reading any observable quantity of a simulator, at any moment, any "
         "number of times and in any order, or attaching a logger, changes "
         "neither the later values, nor the simulated time, nor the random "
         "numbers which are drawn. Between two steps a quantity keeps its "
         "value, a value that was handed out is never modified by later "
         "steps, and asking for one household gives that household's "
         "element.",
         ["histories", "schedules", "inputs"],
         "every simulator, every schedule of observations between the steps, "
         "with and without a logger",
         "Tests read a value once and at fixed moments; caching and aliasing "
         "errors need a read before and after a step.",
         ["demod/simulators/base_simulators.py",
          "demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/simulators/weather_simulators.py",
          "demod/simulators/lighting_simulators.py",
          "demod/simulators/appliance_simulators.py",
          "demod/simulators/heating_simulators.py",
          "demod/simulators/load_simulators.py",
          "demod/simulators/car_simulator.py"],
         [("cached getters", "cached_getter and GetMethods"),
          ("clearing of the cache", "Simulator.step")],
         "pairs of runs with the same seed, one of them observed on a seeded "
         "schedule, compared in values, clock and random stream",
         "real simulators; data partly synthetic; seeded search"),
    prop("P08", "The logger records exactly what the simulation showed",
         "For every simulator and every choice of observable quantities, "
         "aggregated over the households or not, the logger returns, in "
         "order, exactly the values the simulation showed at its start and "
         "after each step except the last, with nothing of the warm-up, and "
         "its plots show the same values. Clearing it forgets the records so "
         "far and nothing else, a copy of it is empty, merging two loggers "
         "gives the records of both and is refused if their lengths differ. "
         "The logger object given by the user is never filled, so that it "
         "can serve several simulations, and unknown quantities are refused.",
         ["histories", "inputs", "configurations"],
         "every simulator, set of quantities, aggregation, and sequence of "
         "steps, clears, copies and additions",
         "The tests log a few quantities of toy simulators; whether the "
         "record is taken after the state changed depends on each simulator.",
         ["demod/simulators/base_simulators.py",
          "demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/simulators/lighting_simulators.py",
          "demod/simulators/car_simulator.py"],
         [("logger", "SimLogger"), ("records", "Simulator.step and "
           "initialize_starting_state")],
         "a logged run against an unlogged twin with the same seed whose "
         "quantities are read at every step, with seeded schedules of logger "
         "operations",
         "real logger and simulators; data partly synthetic; seeded search"),
    prop("P09", "A seed gives one simulation, undisturbed by others",
         "With the same seed, data and inputs every simulator gives the same "
         "values at every step: alone, in a fresh program, in another host "
         "time zone, or created and stepped in any interleaving with other "
         "simulations that share its loaders. No simulator ever modifies the "
         "loaded data, the arguments it was created with, or the inputs of "
         "its steps.",
         ["schedules", "histories", "configurations"],
         "every set of simulators, sharing of loaders and interleaving of "
         "their creation and steps",
         "Tests run one simulator at a time with its own data; shared state "
         "shows only when a second simulation runs between its steps.",
         ["demod/simulators/base_simulators.py",
          "demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/simulators/weather_simulators.py",
          "demod/simulators/lighting_simulators.py",
          "demod/simulators/appliance_simulators.py",
          "demod/simulators/heating_simulators.py",
          "demod/simulators/load_simulators.py",
          "demod/simulators/car_simulator.py", "demod/utils/monte_carlo.py"],
         [("random numbers", "demod/utils/monte_carlo.py and the calls of "
           "numpy.random in the simulators"),
          ("shared data", "the data argument of the simulators")],
         "seeded scheduler over several simulations in one process, each with "
         "its own random stream, against each of them alone; abandoned "
         "neighbours, host time zones and fresh programs as faults",
         "real simulators; data partly synthetic; seeded search"),
    prop("P10", "A population is its groups, households and residents",
         "A simulation made of groups, nested or not, has exactly the "
         "households of its groups in their order: each observable quantity "
         "is the concatenation of what the groups show, inputs reach the "
         "household they are meant for, and each group advances once per "
         "step. Numbers of occupants, of active occupants and of people doing "
         "an activity are the sums over the residents of each household, "
         "whatever the activities of the residents are. A population sampled "
         "over groups has the requested size, never takes from a group of "
         "probability zero, and follows the probabilities.",
         ["inputs", "histories", "configurations"],
         "every composition of groups and residents, size of the population "
         "and sequence of steps and observations",
         "Tests use two or three groups of fixed sizes at the start; offsets "
         "and sums go wrong only for other sizes, or after some steps.",
         ["demod/simulators/base_simulators.py",
          "demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/simulators/util.py"],
         [("groups", "MultiSimulator"),
          ("residents", "SubgroupsIndividualsActivitySimulator"),
          ("samples", "sample_population")],
         "residents whose transition data leave one possible trajectory, so "
         "that sums have an exact reference, and user-defined simulators as "
         "groups, on seeded schedules; extreme random draws as faults",
         "real group simulators; data synthetic; seeded search"),
    prop("P12", "Residents only make the transitions their data allow",
         "Each change of activity, occupancy or household state has a "
         "non-zero probability in the data of the group at that time of day "
         "and on that type of day, the initial state too, and a state with a "
         "sampled duration lasts a number of steps its duration data allow. "
         "The frequencies are those of the data, and the data of a new day "
         "are used from the hour that the data set defines. This holds for "
         "every admissible random draw, on every date.",
         ["inputs", "histories", "configurations"],
         "every transition and duration data, date, refresh hour, number of "
         "steps and sequence of random draws",
         "Tests check a couple of steps with one matrix; an off-by-one in the "
         "slot or day, or a rare draw, needs long histories with data that "
         "differ everywhere.",
         ["demod/simulators/activity_simulators.py",
          "demod/simulators/sparse_simulators.py",
          "demod/utils/monte_carlo.py", "demod/utils/sparse.py"],
         [("first-order and semi-Markov chains", "MarkovChain1rstOrder.step "
           "and SemiMarkovSimulator.step"),
          ("samples", "monte_carlo_from_1d_pdf, monte_carlo_from_cdf"),
          ("sparse chains", "SparseStatesSimulator.step")],
         "long simulations over data that differ for each slot and day, with "
         "extreme random draws as faults, judged against the data",
         "real simulators; data mostly synthetic; frequencies by seeded "
         "sampling with a 6.5 sigma bound"),
    prop("P14", "Appliances run for their cycle, and only when they may",
         "An appliance driven by the occupancy is switched on only in a "
         "household that owns it, while it is off and has rested for its "
         "delay, and with the probability that the profile of its activity "
         "gives for the group, the type of day, the time and the active "
         "occupants. It then runs for exactly its duration, its recorded "
         "cycle (any of its type, with equal chances) or its volume of "
         "water, unless it needs active occupants and "
         "they all leave. It consumes its rated power or its recorded cycle "
         "while on and its standby power while off, and the totals of a "
         "household are the sums over its appliances.",
         ["inputs", "histories", "configurations"],
         "every set of appliances, ownership, occupancy with departures, "
         "date and sequence of random draws",
         "The tests step such a simulator a few times and look at shapes; "
         "errors of one step or of a rest need whole cycles and departures.",
         ["demod/simulators/appliance_simulators.py",
          "demod/utils/appliances.py"],
         [("switching", "OccupancyApplianceSimulator.step, switch_on, "
           "switch_off_inactive"),
          ("ownership", "sample_available_appliances"),
          ("cycles", "sample_real_load_profiles")],
         "each appliance of each household is followed through its cycles, "
         "with departures and extreme random draws as faults, against the "
         "data",
         "real simulator; data synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P15", "Appliances follow the activities of the residents",
         "Each household uses only appliances that it owns and whose activity "
         "is simulated. An activity-driven appliance runs from the start of "
         "its activity until nobody performs it any more, an always-on one "
         "always, repeating its recorded cycle (any of its type, with equal "
         "chances) from the beginning of each use; a probabilistic one is switched on only while its activity is "
         "performed, after the activity or after the appliance it follows in "
         "that household, with the probability for which its yearly target "
         "is met, and runs for its duration or cycle unless its activity "
         "stops. Power, hot water and the totals of a household are those of "
         "the appliances in use.",
         ["inputs", "histories", "configurations"],
         "every set of appliances, sequence of activities with flicker, step "
         "size, and sequence of random draws",
         "Tests build these simulators and step them a few times; whether an "
         "appliance starts and ends with its activity needs sequences of "
         "activities with starts, stops and resumptions.",
         ["demod/simulators/appliance_simulators.py",
          "demod/utils/appliances.py"],
         [("activity-driven", "ActivityApplianceSimulator.step"),
          ("probabilistic", "ProbabiliticActivityAppliancesSimulator.step, "
           "sample_switch_on_probs")],
         "each appliance of each household is followed through seeded "
         "activities with flicker and extreme draws as faults, against the "
         "set of states that the data allow",
         "real simulators; data synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P16", "Lights are on only where someone is active, as the data say",
         "A household has one of the configured sets of bulbs, or bulbs of "
         "the given ratings and counts, and consumes and heats with exactly "
         "those that are on. A bulb that is off is switched on, while the "
         "residents perceive it as too dark or at random, at the rate given "
         "for the number of active occupants, and stays on for a duration of "
         "the data; it is off as soon as nobody is active. The Fisher model "
         "uses its power per active occupant, falling linearly between its "
         "two irradiances.",
         ["inputs", "histories", "random draws"],
         "every set of bulbs, history of occupancy with departures, history "
         "of irradiance per household or for all, and sequence of random "
         "draws",
         "Tests build these simulators and step them a few times; whether a "
         "light goes off with the last occupant or after its duration, and "
         "how often it is used, needs long histories of single bulbs.",
         ["demod/simulators/lighting_simulators.py"],
         [("bulbs", "CrestLightingSimulator.step, sample_bulbs_configuration"),
          ("Fisher", "FisherLightingSimulator.step")],
         "each bulb is followed, through seeded occupancies and irradiances "
         "with departures and extreme draws as faults, against the set of "
         "states that the data allow; frequencies of switching on, durations "
         "and bulbs are tested",
         "real simulators; data synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P17", "The weather is the data's at the simulated time and place",
         "At every step, from any start time and time zone, recorded weather "
         "is the record of that moment, or the interpolation between its "
         "neighbours, and times that the records do not cover are refused; "
         "the records of a country are those of its published file. "
         "The CREST irradiance is the one under a clear sky at that place, "
         "day and minute, times a clearness which changes each minute by the "
         "given probabilities. The CREST temperature of a day follows from "
         "its irradiance, around the seasonal mean and the day-to-day "
         "process of the data, and falls steadily during the night.",
         ["inputs", "start times", "histories", "random draws"],
         "every record spacing, step size, start time and time zone, place, "
         "clearness model, and sequence of random draws",
         "Tests run these simulators from one start time and look at no "
         "values; shifts by hours, days or records show only at other start "
         "times, in other zones or later days.",
         ["demod/simulators/weather_simulators.py",
          "demod/datasets/base_loader.py",
          "demod/datasets/RenewablesNinja/loader.py",
          "demod/datasets/OpenPowerSystems/loader.py"],
         [("recorded", "RealClimate, RealInterpolatedClimate, "
           "ClimateLoader.load_historical_climate_data, "
           "_parse_historical_climate_data"),
          ("CREST", "CrestIrradianceSimulator.step, "
           "CrestClimateSimulator._step_day, _update_ARMA")],
         "seeded simulations over lost records, start times, zones, places "
         "and coarse or extreme draws, against the records and a reference "
         "model of the sun and the temperatures",
         "real simulators and loader code; datasets synthetic; frequencies "
         "by seeded sampling with a 6.5 sigma bound; zones only where no "
         "clock change is near"),
    prop("P18", "Building temperatures obey the balance of energy",
         "In every step, the heat stored in the walls, rooms, emitters and "
         "water cylinder of each household changes by exactly what flows "
         "between them and to the outside, plus the sun, the gains of "
         "occupants, lights and appliances and the heat of the heating "
         "system, minus the hot water drawn. Each household has one of the "
         "types of building of the data, as often as they say, and starts "
         "close to its target temperature.",
         ["inputs", "histories", "step sizes", "random draws"],
         "every set of building and heating types, step size, history of "
         "weather, gains, hot water and heat with sudden changes",
         "Tests only create the simulator; a wrong sign or a missing flow "
         "shows in the balance over a step for inputs which use that flow.",
         ["demod/simulators/heating_simulators.py"],
         [("temperatures", "BuildingThermalDynamics.step, "
           "initialize_temperatures, assign_building_to_households")],
         "seeded histories with sudden changes and extreme draws as faults; "
         "each step is compared with the balance of energy for every type "
         "that the household may have",
         "real simulators; data synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P19", "Heating follows its thermostats, the demand and its capacity",
         "A thermostat turns on when the temperature is at or below its "
         "target minus the deadband, off when it is at or above the target "
         "plus the deadband, and otherwise keeps its state; targets given "
         "from outside replace the earlier ones except where they are "
         "missing. The system runs for water or space exactly when its "
         "controls ask for it, delivers the demand within its capacity with "
         "water first, and never more than either asks. Fuel, electricity "
         "and energy use are those of the delivered heat, the pump and the "
         "household's type of system.",
         ["inputs", "histories", "configurations", "random draws"],
         "every set of types, thermostats and deadbands, sequence of "
         "temperatures at and around the limits, of targets with missing "
         "values, of controls and of demands around the capacities",
         "Tests only create these simulators; hysteresis needs sequences of "
         "temperatures at the limits, and the capacity needs demands around "
         "it for every kind of system.",
         ["demod/simulators/heating_simulators.py"],
         [("thermostats", "Thermostats.step, set_new_target_temperature"),
          ("controls", "SystemControls.step"),
          ("demand", "HeatDemand.step"),
          ("delivery", "HeatingSystem.step, get_fuel_consumptions, "
           "get_energy_consumption")],
         "each component is driven by seeded inputs at and around its limits, "
         "with lost targets and outside temperatures, invalid inputs and "
         "extreme draws as faults, against a reference model for every type "
         "that the household may have",
         "real simulators; data synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P20", "External heating components replace exactly what they provide",
         "In a heating simulation coupled with external thermostats, heating "
         "systems or cylinders, each value they provide for a household is "
         "used in that step in place of the simulated one, and where or when "
         "a value is missing the simulated one is used. An external heat "
         "output is split without loss, hot water first and the unused rest "
         "to the cylinder; households heated from outside consume no power, "
         "and all other temperatures, states, demands and heat of every "
         "household follow as without coupling. After another heating system "
         "is set, its losses, cylinder and kind of boiler are used.",
         ["inputs", "fault_sequences", "histories"],
         "every combination of external components, loss of single values or "
         "of whole messages at any step, and replacement of the system",
         "Tests couple one component for a few steps; mixing up components, "
         "households or steps shows only for combinations in which values "
         "come and go.",
         ["demod/simulators/heating_simulators.py", "demod/simulators/util.py"],
         [("coupling", "FiveModulesHeatingSimulator.step, "
           "_assign_external_heat_outputs, _split_heat_outputs_dhw_sh"),
          ("replacement", "assign_external_array, assign_external_dict, "
           "set_external_heating_system")],
         "simulated external components whose values are lost or which are "
         "silent in seeded steps, against a reference model of the five "
         "modules for every type that the household may have",
         "real heating simulator with all its modules; the external "
         "components and the data are synthetic"),
    prop("P21", "The load of households sums parts that see the same world",
         "In every minute of a load simulation, the weather and the "
         "activities advance with it, every appliance, lamp and heating of a "
         "household reacts to the activity, the weather and the hot water "
         "use of that same minute, and weather given from outside replaces "
         "the simulated one. The load of each household is the sum of what "
         "its appliances, lamps and heating consume, and its heat demands "
         "and temperatures are those of its heating. A step without the "
         "required weather is refused and changes nothing.",
         ["inputs", "histories", "fault_sequences"],
         "every dataset kind, start, with or without weather and heating, "
         "every coupling of external inputs with lost values, and refused "
         "steps at any time",
         "Tests run a few steps of one configuration and look at the end; "
         "parts that drift apart or see old inputs still give plausible "
         "loads.",
         ["demod/simulators/load_simulators.py"],
         [("composition", "LoadSimulator.step, get_power_demand"),
          ("choice of parts", "_instantiate_activity_simulator, "
           "_instantiate_climate")],
         "seeded load simulations with external components that lose values "
         "or stay silent and with refused steps as faults; the inputs of all "
         "parts are recorded at their step seam and compared with what the "
         "other parts show in the same minute",
         "real load simulator with all its parts; external components and "
         "data are synthetic"),
    prop("P13", "Room thermostats follow the habits of their households",
         "Households get one of the six documented kinds of heating habits, "
         "with the documented shares, or the kind that was asked for. Those "
         "that react to presence lower the temperature when everyone leaves, "
         "raise it on arrival and on waking up, use their usual temperature "
         "after going to bed, and otherwise change it only while somebody is "
         "active, as often and as far as documented; those that switch heat "
         "exactly while somebody is at home. Those with a program change at "
         "the same times every day, in the documented order and ranges, "
         "whatever the residents do.",
         ["inputs", "histories", "fault_sequences"],
         "every kind of household, presence of the residents over several "
         "days, start time and sequence of random draws",
         "Tests look at a few steps of constant presence; a missed arrival, "
         "a program that shifts from day to day or a wrong frequency shows "
         "only over long histories.",
         ["demod/simulators/heating_simulators.py"],
         [("habits", "VariableThermostatTemperatureSimulator.step, "
           "update_fluctuators, update_onoff_switchers, "
           "update_constant_patterns"),
          ("programs", "initialize_fixed_patterns"),
          ("shares", "attribute_patterns")],
         "seeded residents that come, go, sleep and wake, with stuck or "
         "flickering presence and extreme draws as faults, against a "
         "reference model that keeps every kind a household may still be of "
         "and learns its program from the history",
         "real simulator; residents synthetic; frequencies by seeded sampling "
         "with a 6.5 sigma bound"),
    prop("P23", "Statistics of recorded days reproduce these days in simulation",
         "The transitions, durations, transition matrices and probabilities "
         "that are derived from recorded days count every change of every "
         "person, alone and grouped by household, exactly as often as it "
         "occurs in the records, and leave the records unchanged. A "
         "population simulated from them makes, at every time of every day, "
         "only transitions that were recorded at that time of the day. One "
         "recorded day is lived again exactly, day after day.",
         ["inputs", "histories", "fault_sequences"],
         "all records of any number of persons, times and states, every "
         "option of the estimation, and simulations over several days",
         "Tests count a handful of transitions of two or three persons; days "
         "without changes, changes at the ends of the days or states that "
         "never occur are not among them.",
         ["demod/utils/parse_helpers.py", "demod/metrics/states.py",
          "demod/simulators/activity_simulators.py"],
         [("estimation", "states_to_transitions, states_to_tpms, "
           "states_to_tpms_with_durations, get_initial_durations_pdfs, "
           "group_hh_transitions, convert_states"),
          ("durations", "get_durations_by_states"),
          ("simulation", "MarkovChain1rstOrder, SemiMarkovSimulator")],
         "seeded records with stalls and skips as faults are counted by a "
         "brute-force reference, then seeded populations with extreme draws "
         "as faults are simulated from the estimates and their histories "
         "compared with the records",
         "real estimation and simulators; the records are synthetic"),
    prop("P26", "Electric cars move with their residents and charge each trip",
         "In a step at most one car of a household leaves, only when "
         "residents leave home and with the probability given for their "
         "number and destination, and at most one returns, when residents "
         "return or more cars than residents are out; none moves at the "
         "change of the simulated day. What a trip consumed, rounded down to "
         "whole steps at the power of the station of the household, is "
         "charged once the car is back, no more and no less: at once, or so "
         "that it is ready at its timer (at once if that takes more than a "
         "day), and later if the car leaves before. A household consumes the "
         "power of its charging cars, and a car on the road never charges.",
         ["inputs", "histories", "random draws"],
         "any number of households, cars, car types and stations, every "
         "strategy of charging, start, history of occupancy, and sequence of "
         "random draws",
         "No test runs the cars at all; interrupted charges, timers and "
         "trips across midnight take long histories of single cars.",
         ["demod/simulators/car_simulator.py"],
         [("cars", "ElectricCarSimulator.step, start_charging, "
           "update_charging, get_electric_consumption")],
         "every car is followed through seeded comings and goings of the "
         "residents, with extreme draws and reused arrays of the caller as "
         "faults, against a reference model of trips and charges; "
         "frequencies are tested",
         "real simulator; the files of cars and stations, which are not "
         "public, are replaced; frequencies by seeded sampling with a 6.5 "
         "sigma bound"),
    prop("P24", "Metrics of load and activity profiles equal their definitions",
         "Each metric of load profiles and of activity patterns (energy, "
         "diversity, coincidence, duration curves, errors, state durations, "
         "edit distances) returns, for every array of profiles of a valid "
         "shape, what its documented definition gives.",
         ["inputs"],
         "all arrays of profiles and all options of every metric",
         "Tests evaluate a few small arrays.",
         ["demod/metrics/loads.py", "demod/metrics/states.py",
          "demod/metrics/errors.py"],
         [("metrics", "all functions of demod.metrics")],
         "not applicable", "not applicable"),
    prop("P25", "Raw time-use surveys become the data of exactly their diaries",
         "Loading data of the German time use survey for a subgroup uses "
         "exactly the diaries whose household, resident and day fit every "
         "criterion of the subgroup, and, unless asked otherwise, only "
         "households recorded fully and on the same days. Transitions, "
         "durations, first states, shares, profiles, starts and lengths of "
         "activities are then what these diaries record, with secondary "
         "activities where the main one is not told: whoever travels is "
         "away, the recorded places hold before the first and after the last "
         "journey, and the activities decide between journeys. Loading "
         "again, from the saved data, gives the same.",
         ["inputs", "recording faults", "histories"],
         "every survey with lost days, silent residents, differing days and "
         "refused answers; every subgroup of all criteria; every kind of "
         "data and every set of activities",
         "The survey is not public, so that no test can read it: the parser "
         "and all that is derived from it never run in the tests.",
         ["demod/datasets/GermanTOU/parser.py",
          "demod/datasets/GermanTOU/loader.py",
          "demod/datasets/tou_loader.py"],
         [("parsing", "modules GermanTOU.parser and GermanTOU.loader")],
         "seeded households live simulated days, recorders lose and refuse "
         "parts of them as faults, the files of the survey are written, and "
         "what the real parser and loader make of them is compared with a "
         "reference on the diaries",
         "real parser and loader; the survey, which is not public, is "
         "simulated in files of its form"),
]
