SESSION = "stateful property-based testing (generated libraries and practice sessions) against a reference model"
PUB = ["Trane::get_exercise_batch"]
NOTE = "Seeded random search over generated cases; no guarantee beyond what was explored. Trusts the reference model in harness/ and, for single exercises, the scores the instance itself reports (checked on their own by C07 and C08)."

prop("C01", "Exercises are not offered before their dependencies are passed",
  "For every library and practice history, a batch never offers an exercise of a lesson while one of the lesson's dependencies in the library is not passed (average score below the passing score, or fewer trials than the required minimum), nor, for lessons without dependencies of their own, while one of the course's dependencies is not passed. Dependencies that are blacklisted, superseded, missing from the library or have no valid exercises do not hold anything back. Exempt are only units that the student names directly in a filter, lessons selected by metadata or the review list, and exercises waiting to be relearned.",
  ["histories", "inputs"], "every acyclic course library, practice history, blacklist and sequence of batches with or without course, dependents or dependencies filters",
  "The tests walk fixed libraries answered with uniform scores; they do not sample mixed histories, missing dependencies, superseded or blacklisted dependencies, or filters starting in the middle of the graph.",
  ["src/scheduler.rs", "src/graph.rs", "src/scheduler/data.rs"],
  [("dependency satisfaction", "src/scheduler.rs: satisfied_dependency, all_satisfied_dependencies"), ("frontier of the search", "src/scheduler.rs: get_valid_dependents, get_candidates_from_graph"), ("starting lessons and dependency sinks", "src/graph.rs: update_starting_lessons, update_dependency_sinks")],
  PUB, SESSION, NOTE)

prop("C02", "Blacklisted units are never offered and do not block other units",
  "No batch ever contains an exercise that is blacklisted or that belongs to a blacklisted lesson or course, whatever filter is used and whether the unit was blacklisted before or after it was practiced, added to the review list or failed. Removing the unit from the blacklist makes it available again. Blacklisting a unit never makes material that does not belong to it unreachable.",
  ["histories", "inputs"], "every library, every sequence of blacklist changes (single units, prefixes), review list changes, scores and batches with any filter",
  "The tests blacklist fixed units of one fixture library with no or one kind of filter; they never combine the blacklist with the review list, relearning or prefixes.",
  ["src/scheduler.rs", "src/scheduler/data.rs", "src/scheduler/relearn_pile.rs", "src/blacklist.rs"],
  [("blacklist lookups during the search", "src/scheduler/data.rs: blacklisted, all_valid_exercises"), ("relearn pile filter", "src/scheduler/relearn_pile.rs"), ("cached blacklist", "src/blacklist.rs")],
  PUB, SESSION, NOTE)

prop("C03", "Everything not blacklisted is eventually offered to a successful student",
  "A batch without a filter is never empty while some valid exercise is reachable by passed, blacklisted, missing or empty dependencies. A student who keeps answering batches with top scores is eventually offered every exercise of the library that is not blacklisted, superseded, or mastered already.",
  ["histories", "inputs"], "every acyclic library (including empty courses and lessons, missing and cross-level dependencies), starting history and blacklist",
  "The tests check that everything is visited in a few fixed libraries starting from an empty history; dead ends appear only for particular graph shapes and histories.",
  ["src/scheduler.rs", "src/graph.rs", "src/scheduler/filter.rs"],
  [("search of the dependency graph", "src/scheduler.rs: get_candidates_from_graph, get_initial_stack"), ("dependency sinks", "src/graph.rs: update_dependency_sinks"), ("candidate filter", "src/scheduler/filter.rs")],
  PUB, SESSION, NOTE)

prop("C04", "A filtered batch contains only what the filter selects",
  "With a filter on courses, lessons, metadata, the review list, dependents or dependencies of units, every exercise in the batch belongs to the units that the filter selects or is waiting to be relearned. If a filter selects an exercise that is available without having to master anything first, the batch is not empty. Units named in a filter or review list that are not in the library are ignored.",
  ["histories", "inputs"], "every library with metadata, history, review list, blacklist and every filter, nested metadata filters included",
  "The tests apply hand-written filters to one or two fixture libraries; combinations of nested metadata filters, overlapping units, depths and histories are not sampled.",
  ["src/scheduler.rs", "src/data/filter.rs", "src/scheduler/data.rs"],
  [("filtered searches", "src/scheduler.rs: get_candidates_from_*"), ("filter predicates", "src/data/filter.rs: passes_filter")],
  PUB, SESSION, NOTE)

prop("C05", "Batches are well formed",
  "No exercise appears twice in a batch, every exercise in it carries exactly the manifest that the library holds for it, and the batch has no more exercises than the batch size (at least five) plus the share reserved for relearning. A batch without a filter has exercises of at most the configured number of lessons in progress.",
  ["histories", "configurations", "inputs"], "every library, history, filter, batch size, relearn fraction and limit of lessons in progress",
  "The tests check batches of the default size over one library; overlapping filter units, small sizes and the relearn pile interact in ways no fixed test samples.",
  ["src/scheduler.rs", "src/scheduler/filter.rs", "src/scheduler/relearn_pile.rs", "src/scheduler/review_knocker.rs", "src/scheduler/shuffler.rs"],
  [("batch composition", "src/scheduler/filter.rs"), ("lessons in progress", "src/scheduler.rs"), ("relearn pile", "src/scheduler/relearn_pile.rs")],
  PUB, SESSION, NOTE)

prop("C06", "Superseded units stop being offered exactly once they are superseded",
  "A unit is superseded when it was practiced in full and all the units that supersede it (replaced by their own superseding units where these are superseded) have reached the superseding score. A superseded lesson or course is no longer offered by searches of the library, courses, metadata or dependents, does not block its dependents, and is offered again once it is no longer superseded.",
  ["histories", "inputs"], "every library with acyclic superseding relations between lessons and courses, every history, blacklist and sequence of scores",
  "The tests use one fixture with a handful of superseding units answered uniformly; chains, courses superseding lessons, blacklisted exercises and later score changes are not covered.",
  ["src/scheduler/unit_scorer.rs", "src/scheduler.rs", "src/graph.rs"],
  [("superseding test", "src/scheduler/unit_scorer.rs: is_superseded, replace_superseding"), ("search", "src/scheduler.rs: skip_lesson, skip_course")],
  PUB, SESSION, NOTE)

MODEL = "model-based property testing: generated operation sequences against a reference model"
NOTE2 = "Seeded random search over generated cases; no guarantee beyond what was explored. Trusts the reference model in harness/."

prop("C07", "Reported scores never depend on what the instance did before",
  "At any moment the score that a long-lived instance reports for any exercise, lesson or course equals the score that a freshly opened instance over the same files reports at the same time. This holds after any sequence of scoring, recording or trimming trials, blacklist changes, batches, cache invalidations and prefix removals. Scores of lessons and courses follow at once from changes to their exercises, to the units that encompass or supersede them, and to the blacklist.",
  ["histories", "inputs"], "every library with superseding and encompassing relations and every sequence of operations of the public API",
  "The score caches are invalidated by hand in many places; the tests check a few invalidations one at a time and never compare a long-lived instance with a fresh one.",
  ["src/scheduler/unit_scorer.rs", "src/scheduler/data.rs", "src/scheduler.rs", "src/lib.rs", "src/blacklist.rs"],
  [("score caches and their invalidation", "src/scheduler/unit_scorer.rs: invalidate_*"), ("callers that change data", "src/lib.rs, src/scheduler.rs: score_exercise, invalidate_cached_score")],
  ["Trane::get_unit_score"], "stateful property-based testing with a differential oracle (long-lived against freshly opened instance)", NOTE2)

prop("C08", "Exercise scores follow the documented memory model",
  "The score of an exercise with trials depends only on its type, its most recent trials and score deltas within the configured limits, its rewards and the current time, as the documented power-law forgetting model prescribes; it is between 0 and 5 and an exercise that was never practiced has score 0. It does not depend on the order in which trials were recorded or on the absolute date. Rewards only apply to exercises that have been practiced.",
  ["inputs", "histories", "configurations"], "every exercise type, every history of trials, deltas and rewards, every number of trials and deltas considered, every elapsed time",
  "The tests evaluate the scorer on hand-picked trial lists; interactions of spacing, limits, equal timestamps and extreme ages are not sampled.",
  ["src/exercise_scorer.rs", "src/reward_scorer.rs", "src/scheduler/unit_scorer.rs"],
  [("power-law scorer", "src/exercise_scorer.rs"), ("reward scorer", "src/reward_scorer.rs"), ("combination with rewards", "src/scheduler/unit_scorer.rs: get_exercise_score")],
  ["Trane::get_unit_score", "PowerLawScorer::score"], "property-based testing against an independent implementation of the model, with metamorphic relations (record order, shifted dates)", NOTE2)

prop("C09", "Lesson and course scores average the valid parts",
  "The score of a lesson is the mean of the scores of its exercises that are not blacklisted, and the score of a course is the mean of the scores of its lessons that have one. A unit that is blacklisted or superseded, or that has no valid parts, has no score. Asking for the score of a unit that is not in the library is an error.",
  ["inputs", "histories"], "every library including superseding relations, blacklist and history",
  "The tests average over full lessons of the fixture; partial blacklists, empty lessons and superseded parts are sampled in few combinations.",
  ["src/scheduler/unit_scorer.rs"],
  [("averages", "src/scheduler/unit_scorer.rs: get_lesson_score, get_course_score")],
  ["Trane::get_unit_score"], MODEL, NOTE2)

prop("C10", "The practice history is kept exactly",
  "Reading the trials or score deltas of an exercise returns the newest ones first, up to the requested number, with exactly the scores and times that were recorded. Trimming keeps exactly the newest ones of every exercise and removing a prefix removes exactly the exercises whose ID starts with it, taken literally. All of this survives reopening, and scoring an exercise adds exactly one trial and, if there were trials before, one delta of the score minus the predicted score.",
  ["histories", "inputs"], "every sequence of recording, scoring, batch recording, trimming, prefix removal and reopening, with IDs that contain wildcard characters and equal timestamps",
  "The tests record a handful of trials for one or two exercises with plain IDs and distinct timestamps.",
  ["src/practice_stats.rs", "src/practice_deltas.rs", "src/scheduler.rs"],
  [("trials", "src/practice_stats.rs"), ("deltas", "src/practice_deltas.rs"), ("scoring", "src/scheduler.rs: score_exercise, record_exercise_scores")],
  ["PracticeStats", "PracticeDeltas"], MODEL, NOTE2)

prop("C11", "Stored rewards are exactly the newest distinct ones",
  "Recording rewards returns exactly the units for which a reward was stored; a reward that repeats a recent reward of the unit (a similar value and weight close in time) is left out, and every other is stored. Reading a unit's rewards returns the newest first, up to the requested number, and at most the newest twenty of a unit are kept. Trimming, removing a literal prefix and reopening change exactly what they say, including which later rewards count as repetitions.",
  ["histories", "inputs"], "every sequence of recording batches of rewards, trimming, prefix removal and reopening",
  "The tests use one or two units and few rewards; the cache of recent rewards and the database are never compared after trimming or removal.",
  ["src/practice_rewards.rs"],
  [("store and cache", "src/practice_rewards.rs")],
  ["PracticeRewards"], MODEL, NOTE2)

prop("C12", "Blacklist and review list are exact sets",
  "After any sequence of additions and removals the blacklist and the review list contain exactly the units added and not removed since, each once, whether looked up one by one or listed, before and after reopening. Removing a prefix from the blacklist removes exactly the entries that start with it, taken literally. The two lists do not affect each other.",
  ["histories", "inputs"], "every sequence of operations with IDs that share prefixes and contain wildcard characters, with lookups in between",
  "The tests add and remove a few plain IDs; the lookup cache, wildcard characters and repeated operations are not combined.",
  ["src/blacklist.rs", "src/review_list.rs"],
  [("blacklist store and cache", "src/blacklist.rs"), ("review list store", "src/review_list.rs")],
  ["Blacklist", "ReviewList"], MODEL, NOTE2)

prop("C13", "Scores spread as rewards along the encompassing relations",
  "Scoring an exercise rewards the units its lesson and course encompass when the score is four or five, and penalizes the units that encompass them when it is lower, following the graph with values and weights reduced at every step by the documented factors until the reward falls below the minimum. When several paths reach a unit, the strongest reward is the one kept. Units not reached this way, and the lesson and course of the exercise themselves, get no reward.",
  ["inputs", "histories"], "every library with encompassing edges of every weight, every exercise and score",
  "The tests propagate through one fixture; diamonds, zero weights, long chains and edges between lessons and courses are not sampled.",
  ["src/scheduler/reward_propagator.rs", "src/scheduler.rs", "src/graph.rs"],
  [("propagation", "src/scheduler/reward_propagator.rs"), ("encompassing graph", "src/graph.rs: add_encompassed")],
  ["Trane::score_exercise", "PracticeRewards::get_rewards"], "property-based testing against a reference propagation over the declared relations", NOTE2)

prop("C14", "The library and its graph mirror the manifests",
  "For every library, the queries for unit types, manifests, names, dependencies, dependents, superseding and encompassing relations, lessons of a course, exercises of a lesson, starting lessons, ID lists and prefixes answer exactly what the manifests declare. Every unit is reachable from the sinks the search starts from. The exported DOT graph contains exactly the units and the relations of the library.",
  ["inputs"], "every library with missing, superseding and encompassing relations",
  "The tests query the fixture library for a few units; missing and cross-level relations are sparse.",
  ["src/graph.rs", "src/course_library.rs", "src/lib.rs"],
  [("graph", "src/graph.rs"), ("library queries", "src/course_library.rs")],
  ["UnitGraph", "CourseLibrary"], "property-based testing of every query against the generated manifests", NOTE2)

prop("C15", "Opening a library reads exactly the courses on disk",
  "Opening a directory yields exactly the courses, lessons and exercises whose manifests lie in it, at whatever depth courses lie and whatever other files lie around them, leaving out courses under the ignored paths. Every field of every manifest is kept, defaults are applied to the fields left out, and asset paths are made absolute against the unit's directory.",
  ["inputs", "configurations"], "every directory layout, set of ignored paths and manifest with any mix of optional fields and asset kinds",
  "The tests write one layout with all fields in one style; nesting, decoy files, ignored prefixes and omitted fields are not varied.",
  ["src/course_library.rs", "src/data.rs"],
  [("directory walk", "src/course_library.rs: open_course, open_lesson, process_exercise"), ("path normalization", "src/data.rs: NormalizePaths")],
  ["Trane::new_local", "CourseLibrary"], "property-based testing: generated directory trees against the manifests they were written from", NOTE2)

prop("C16", "Only valid libraries open",
  "Opening a library fails with an error, and never panics or hangs, if unit IDs are duplicated or empty, units name the wrong owner, dependency, superseding or encompassing relations form a cycle or have a weight outside 0 to 1, assets are missing, or a manifest is not well formed. Every library without such defects opens. A rejected library opens once the defect is repaired.",
  ["inputs", "fault_sequences"], "every valid library with any of these defects injected anywhere",
  "The tests inject a few defects into one library at one place.",
  ["src/course_library.rs", "src/graph.rs", "src/data.rs"],
  [("validation of manifests", "src/course_library.rs"), ("cycle and weight checks", "src/graph.rs: check_cycles")],
  ["Trane::new_local"], "property-based testing with injected defects; the oracle knows which libraries are valid", NOTE2)

prop("C17", "A serialized library behaves as the files it came from",
  "Serializing a library and opening the result, also after encoding it in a binary or text format, gives an instance that has the same units, manifests, relations, assets, scores and available exercises as the instance over the files. The serialized library contains every unit and asset exactly once.",
  ["inputs"], "every library with every kind of asset and relation",
  "The tests serialize one fixture library and compare few units.",
  ["src/course_library.rs", "src/lib.rs", "src/graph.rs"],
  [("serialization", "src/course_library.rs: SerializedCourseLibrary"), ("opening", "src/lib.rs: new_local_from_serialized")],
  ["Trane::new_local_from_serialized", "SerializedCourseLibrary"], "property-based testing: round trip and differential comparison with the library over files", NOTE2)

prop("C19", "Saved filters, sessions and preferences are kept exactly",
  "Filters and study sessions saved in the library's directory are all listed and returned exactly as written, and preferences that are set are returned as set, also after reopening. Opening a library with a filter, session or preferences file that is broken, or with two filters or sessions of the same ID, is an error and not a panic. IDs that are not saved return nothing.",
  ["inputs", "fault_sequences"], "every set of nested filters, sessions and preferences, with broken and duplicate files injected",
  "The tests save two or three flat filters and sessions with fixed contents.",
  ["src/filter_manager.rs", "src/study_session_manager.rs", "src/preferences_manager.rs", "src/lib.rs"],
  [("filters", "src/filter_manager.rs"), ("study sessions", "src/study_session_manager.rs"), ("preferences", "src/preferences_manager.rs")],
  ["FilterManager", "StudySessionManager", "PreferencesManager"], "property-based testing: round trips through files, with injected faults", NOTE2)

prop("C20", "A study session follows its parts by the clock",
  "The part of a study session in effect depends only on the whole minutes elapsed since its start: the first part before the start, each part for its duration, the last part from then on, and no filter if the session has no parts. Batches of a session are those of that part's filter, whether the filter is given inline, saved, or absent. A part that names a filter that is not saved is an error.",
  ["inputs", "schedules"], "every session with any number of parts and durations (zero included), every start time and moment of the request",
  "The tests look at one session of a few parts at a few fixed offsets.",
  ["src/data/filter.rs", "src/scheduler.rs", "src/filter_manager.rs"],
  [("part in effect", "src/data/filter.rs: StudySessionData::get_part"), ("filter of the part", "src/scheduler.rs: get_session_filter")],
  ["StudySessionData::get_part", "Trane::get_exercise_batch"], "property-based testing against a reference clock, and of batches against the filter of the part", NOTE2)

prop("C21", "A metadata filter is a boolean expression over the metadata",
  "A filter on metadata selects a lesson exactly when its boolean expression of conditions on course and lesson metadata, nested at will, holds for the lesson and its course; include and exclude conditions are each other's negation. A course selected as a whole has no lesson that the filter does not select. Filters on courses or lessons select exactly the units they name.",
  ["inputs"], "every nested filter and every combination of course and lesson metadata, multi-valued and missing keys included",
  "The tests evaluate a few dozen hand-written filters.",
  ["src/data/filter.rs"],
  [("evaluation", "src/data/filter.rs: apply_to_course, apply_to_lesson, UnitFilter::passes_*")],
  ["KeyValueFilter", "UnitFilter"], "property-based testing against an independent evaluator of boolean expressions", NOTE2)

prop("C27", "Scheduler options take effect at once and are validated",
  "Valid scheduler options are accepted and invalid ones rejected with an error. The batch size of the user preferences is in effect when the library opens; options set later are returned as set and take effect at once on batches, scores, superseding and the limits of lessons in progress; resetting restores the defaults.",
  ["configurations", "histories"], "every combination of scheduler options set at any point of a practice history",
  "The tests set a few options on a fresh instance and mostly check that the value is stored.",
  ["src/data.rs", "src/scheduler.rs", "src/lib.rs", "src/scheduler/unit_scorer.rs", "src/preferences_manager.rs"],
  [("validation", "src/data.rs: SchedulerOptions::verify, MasteryWindow"), ("use of the options", "src/scheduler.rs: set_scheduler_options, reset_scheduler_options"), ("scores depending on the options", "src/scheduler/unit_scorer.rs")],
  ["Trane::set_scheduler_options", "Trane::get_scheduler_options", "Trane::reset_scheduler_options", "Trane::get_exercise_batch", "Trane::get_unit_score"], SESSION, NOTE)

prop("C29", "Batches mix mastery windows by their configured shares",
  "From the exercises that a search finds, a batch takes of each mastery window its configured share of the batch size (which is a third of what was found when that is less), shifted towards harder windows when the answers of this session were good and towards easier ones when they were bad. While a batch is less than three quarters full, it is filled from the current, new, target, easy and mastered windows in that order, with at most half of the size from new and three tenths from target exercises. The windows are decided by the scores of the exercises at the time of the request.",
  ["histories", "configurations", "inputs"], "every library, history, batch size, mastery windows and sequence of answers",
  "The tests check that batches are not larger than the batch size; the shares per window and their shift are checked for a few hand-made candidate lists.",
  ["src/scheduler/filter.rs", "src/scheduler/data.rs", "src/scheduler.rs", "src/data.rs"],
  [("shares and remainder", "src/scheduler/filter.rs: CandidateFilter"), ("answers of the session", "src/scheduler/data.rs: get_success_rate"), ("windows", "src/data.rs: MasteryWindow")],
  PUB, SESSION, NOTE)

prop("C30", "Failed exercises come back until they are answered better",
  "An exercise answered with one or two in this session comes back in the following batches, up to the share of the batch reserved for relearning, whatever the filter of the batch, until it is answered with three or more. Exercises are never in that share for any other reason, and blacklisted exercises never come back. No exercise comes twice in the batch because of it.",
  ["histories", "configurations"], "every library, sequence of answers, blacklist changes, filters, batch sizes and relearn fractions",
  "The tests fail an exercise and look at the next batch without filter; they never combine it with full piles, filters, blacklists or improvement.",
  ["src/scheduler/relearn_pile.rs", "src/scheduler.rs"],
  [("relearn pile", "src/scheduler/relearn_pile.rs"), ("recording of answers", "src/scheduler.rs: score_exercise")],
  PUB, SESSION, NOTE)

prop("C32", "Mastered material covered by other candidates is left out",
  "A mastered exercise is left out of a batch when the lessons and courses under consideration encompass its lesson or course, directly or through others, with a total weight of ten or more. Exercises that are nearly mastered and covered with half of that only compete for the share of the batch reserved for mastered exercises. An exercise that is not mastered or not covered enough, or whose covering lessons are not under consideration, is never left out or moved for that reason.",
  ["histories", "inputs"], "every library with encompassing edges of every weight and every history of scores",
  "The tests check the weights for two fixed graphs and the removal for a fixed list of candidates.",
  ["src/scheduler/review_knocker.rs", "src/scheduler.rs"],
  [("knock-out", "src/scheduler/review_knocker.rs")],
  PUB, SESSION, NOTE)

prop("C34", "Metadata filters respect dependencies and skip over other units",
  "With a metadata filter, a batch offers only exercises of selected lessons that are reached from the start of the library through selected units that are passed; units that are not selected are skipped over and hold nothing back. As long as a selected available exercise remains, the batch is not empty. A student who answers well is eventually offered every selected exercise.",
  ["histories", "inputs"], "every acyclic library, practice history, and course or lesson metadata filter",
  "The tests apply a few filters to one fixture library and check what is visited after all answers are top scores.",
  ["src/scheduler.rs", "src/data/filter.rs"],
  [("filtered search", "src/scheduler.rs: get_candidates_from_filter"), ("selection", "src/data/filter.rs")],
  PUB, SESSION, NOTE)

prop("C35", "New and low-scoring exercises come in blocks by course",
  "Within a batch, new and low-scoring exercises of the same course come in consecutive blocks of up to three instead of scattered, and only one block of a course falls short of that. The order of blocks is random, with those of new exercises tending to the end of the batch but not fixed there. Reordering never adds, drops or repeats an exercise.",
  ["inputs", "histories"], "every library with several courses, every history and batch size",
  "The tests check the order for a fixed list of candidates.",
  ["src/scheduler/shuffler.rs"],
  [("block order", "src/scheduler/shuffler.rs")],
  PUB, SESSION, NOTE)

GEN = "property-based testing: generated course directories against a reference model of the generated course"
NOTE3 = "Seeded random search over generated course directories; no guarantee beyond what was explored. Trusts the reference generator in harness/src/props/generators.rs."

prop("C22", "A knowledge base course opens as exactly what its directory says",
  "Opening a knowledge base course yields one lesson for each lesson directory and one exercise for each front file in it, whatever else lies around, with names, descriptions, types, metadata and relations from their files or the defaults, short IDs of lessons of the course resolved and others kept, and fronts, backs, instructions and materials that point to the files or hold their text. Lessons written in the usual way in the same course stay as they are. A malformed file makes opening fail with an error, and repairing it makes the course open again.",
  ["inputs"], "every set of files in the course directory",
  "The tests build a handful of directories with simple names and check fields one at a time.",
  ["src/data/course_generator/knowledge_base.rs", "src/course_library.rs", "src/data.rs"],
  [("generation", "src/data/course_generator/knowledge_base.rs: KnowledgeBaseConfig::generate_manifests"), ("merge with regular lessons", "src/course_library.rs")],
  ["Trane::new_local", "Trane::get_lesson_manifest", "Trane::get_exercise_manifest", "unit graph"], GEN, NOTE3)

prop("C23", "Transcription courses offer every passage for every instrument",
  "Opening a library with transcription courses yields, for every course, the singing and transcription lessons and their advanced versions that its configuration and the instruments in the preferences ask for, with one exercise for each interval of each passage in the course manifest and passage directory. The lessons of a course depend on each other and on the same lessons of the courses it depends on, and carry the metadata of their tracks. Duplicate passage IDs make opening fail with an error.",
  ["inputs", "configurations"], "every set of courses, passages, intervals, skip flags, instruments and dependencies between courses",
  "The tests generate one course with two passages and compare some fields.",
  ["src/data/course_generator/transcription.rs", "src/data/course_generator/transcription/constants.rs", "src/course_library.rs"],
  [("generation", "src/data/course_generator/transcription.rs: TranscriptionConfig::generate_manifests"), ("passages", "src/data/course_generator/transcription.rs: open_passage_directory")],
  ["Trane::new_local", "Trane::get_lesson_manifest", "Trane::get_exercise_manifest", "unit graph"], GEN, NOTE3)

prop("C24", "Literacy courses contain every example and exception",
  "Opening a literacy course yields a reading lesson for each lesson directory and, if configured, a dictation lesson that depends on it, each with an exercise that holds every example and exception of the directory, whether in files of their own with answers, one per line or in a list. Names, descriptions, instructions and relations come from their files or the defaults, with short IDs resolved to the reading or dictation lessons of the course. A malformed file makes opening fail with an error, and repairing it makes the course open again.",
  ["inputs"], "every set of files in the course directory and every configuration",
  "The tests build a handful of directories with simple names and contents.",
  ["src/data/course_generator/literacy.rs", "src/course_library.rs"],
  [("generation", "src/data/course_generator/literacy.rs: LiteracyConfig::generate_manifests"), ("examples and exceptions", "src/data/course_generator/literacy.rs: LiteracyLesson::open_lesson")],
  ["Trane::new_local", "Trane::get_lesson_manifest", "Trane::get_exercise_manifest", "unit graph"], GEN, NOTE3)

prop("C25", "Music piece courses break a piece into its passages",
  "Opening a music piece course yields one lesson with one exercise for each passage of the piece, at every level of nesting, which depends on the lessons of exactly its direct sub-passages, so that a passage comes only after its parts. Every exercise shows the interval of its passage and the asset of the piece with full paths. IDs of passages are unique whatever their indices.",
  ["inputs"], "every tree of passages, asset and course manifest",
  "The tests generate one piece with a few passages.",
  ["src/data/course_generator/music_piece.rs", "src/course_library.rs"],
  [("generation", "src/data/course_generator/music_piece.rs: MusicPieceConfig::generate_manifests, MusicPassage::generate_lesson_helper")],
  ["Trane::new_local", "Trane::get_lesson_manifest", "Trane::get_exercise_manifest", "unit graph"], GEN, NOTE3)

prop("C26", "What the course builders write opens as exactly the given course",
  "A course written by a course builder, with templates, assets and all kinds of exercises, opens as exactly the given manifests, and its asset files hold exactly the given contents. Building fails with an error when a manifest refers to a file that does not exist, and never overwrites existing files or courses; a simple knowledge base course is read back from JSON as it was, and building it again replaces exactly its lessons. Courses with duplicate or empty IDs are rejected without changing anything on disk.",
  ["inputs"], "every course, template, asset, and fault of the given course or directory",
  "The tests build one course of each kind and check that some files exist.",
  ["src/course_builder.rs", "src/course_builder/knowledge_base_builder.rs"],
  [("regular courses", "src/course_builder.rs: CourseBuilder, LessonBuilder, ExerciseBuilder, AssetBuilder"), ("knowledge base courses", "src/course_builder/knowledge_base_builder.rs: CourseBuilder, SimpleKnowledgeBaseCourse")],
  ["CourseBuilder::build", "SimpleKnowledgeBaseCourse::build", "Trane::new_local"], "property-based round trip: generated courses are built, opened and compared with what was given", NOTE3)

prop("C28", "A crash loses nothing acknowledged and leaves a library that opens",
  "When the process is killed at any moment, even halfway through writing a file, the library opens again with everything that was acknowledged before, in every store. The operation that was running has happened or not: each scores, deltas or rewards batch is stored in full or not at all, preferences are the old or the new ones, and nothing else is touched. The student can go on from there.",
  ["crash_points", "histories"], "every sequence of operations and every call that changes a file at which the process may be killed, including while opening the library for the first time",
  "The tests never end abnormally.",
  ["src/lib.rs", "src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/preferences_manager.rs", "src/utils.rs"],
  [("transactions", "src/practice_stats.rs, src/practice_deltas.rs, src/practice_rewards.rs: record_*"), ("preferences file", "src/preferences_manager.rs"), ("initialization", "src/lib.rs: init_config_directory")],
  ["Trane::new_local", "get_scores", "get_deltas", "get_rewards", "get_blacklist_entries", "get_review_list_entries", "get_user_preferences"],
  "property-based fault injection: generated scripts run in a process killed at generated calls, compared with the undisturbed run",
  "Seeded random search over scripts and kill points (before, or in the middle of, any call that changes a file); the page cache survives, so power failures are out of scope. Trusts the reference run of the same script and the interposed C library calls in harness/src/bin/victim.rs.")

prop("C33", "A failed write is reported and leaves the running instance consistent",
  "When writes fail because the disk is full or broken, the operation reports an error or has its whole effect, and never panics. The running instance keeps reporting exactly what the files hold. Once the disk works again, repeating the operations that failed leaves everything as if nothing had happened.",
  ["fault_sequences", "histories"], "every sequence of operations and every run of failing calls that change files",
  "The tests never see a failing disk.",
  ["src/lib.rs", "src/scheduler.rs", "src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/preferences_manager.rs"],
  [("invalidation of cached scores", "src/lib.rs"), ("cached rewards", "src/practice_rewards.rs: RewardCache"), ("cached blacklist", "src/blacklist.rs")],
  ["score_exercise", "record_exercise_scores", "record_unit_rewards", "add_to_blacklist", "get_unit_score"],
  "property-based fault injection: generated scripts run while generated runs of writes fail; live against reopened instance and undisturbed run",
  "Seeded random search over scripts and failing calls (disk full, I/O error; 1 to 20 calls in a row). Repeating an answer may store its delta or trial twice, since the stores of an answer are separate databases. Trusts the interposed C library calls in harness/src/bin/victim.rs.")

prop("C31", "Threads may share an instance without losing or confusing anything",
  "Any number of threads may answer exercises, request batches and read scores through a shared instance at the same time, without panics or deadlocks. Every acknowledged answer is stored exactly once, with the change from the previous score of all but the first answer, and can be read at once by the thread that gave it. Batches are well formed throughout, and afterwards the instance reports exactly what a newly opened one reads from the files and brings back the exercises that were failed.",
  ["schedules", "histories"], "every library and every interleaving of the threads",
  "The tests are single-threaded.",
  ["src/lib.rs", "src/scheduler.rs", "src/scheduler/unit_scorer.rs", "src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs"],
  [("lock of the scheduler", "src/lib.rs: Trane::scheduler"), ("locks of the stores", "src/lib.rs: Trane; LocalPracticeStats::connection"), ("Send and Sync", "src/lib.rs")],
  ["score_exercise", "get_exercise_batch", "get_unit_score", "get_scores", "get_deltas"],
  "property-based stress testing: generated programs of threads with generated delays in the file locking of SQLite, against invariants and a reopened instance",
  "Seeded random search over programs of 2 to 4 threads with random delays; the schedules themselves are those of the operating system, so a run is not reproduced exactly and a replay repeats the program up to 30 times. No systematic exploration of interleavings.")

prop("C36", "Passed lessons that are not mastered give a share of their exercises",
  "From a lesson whose average score is between the passing score and four, a batch draws on a share of its exercises only: the configured minimum share at the passing score, growing linearly to all of them at four, and at least one. Lessons that are not passed yet or have a higher average give all their exercises. This holds for every filter.",
  ["inputs", "configurations", "histories"], "every library, history, passing score and minimum share",
  "The tests check the selection for a fixed list of candidates and the default options.",
  ["src/scheduler.rs"],
  [("selection of candidates", "src/scheduler.rs: DepthFirstScheduler::select_candidates, get_candidates_from_lesson_helper")],
  PUB, SESSION, NOTE)

prop("C37", "Within a mastery window exercises are drawn by the documented weights",
  "The exercises of a batch are drawn at random from each mastery window, without replacement, with probabilities proportional to their urgency divided by the square root of a cost, and never less than a minimum. The cost falls with depth in the graph, coverage of other candidates, dead ends, improvement, and stagnation below mastery; it rises with coverage by other candidates, each time the exercise was offered before in the session, decline, and stagnation after mastery, by the documented amounts. Answers and batches of other sessions do not count as offers.",
  ["histories", "inputs"], "every library, history, mastery windows and sequence of batches",
  "The tests compare the weights of two hand-made candidates at a time; no test looks at how often exercises are actually offered, or where the data of the weights comes from.",
  ["src/scheduler/filter.rs", "src/scheduler.rs", "src/scheduler/review_knocker.rs", "src/scheduler/data.rs", "src/exercise_scorer.rs"],
  [("weights", "src/scheduler/filter.rs: candidate_cost, candidate_weight, select_candidates"), ("data of the candidates", "src/scheduler.rs: get_candidates_from_lesson_helper, get_candidates_from_graph_helper; src/scheduler/data.rs: increment_exercise_frequency"), ("coverage", "src/scheduler/review_knocker.rs: compute_encompassing_map")],
  PUB, "statistical property-based testing: generated libraries and histories; sums over the offered exercises against a simulation of the documented model",
  "Seeded random search; each case is a sequential test over about 25 000 selections that fails beyond six standard deviations (trane's random generator is not seeded), so small biases stay unseen. Trusts the reference model in harness/src/props/weights.rs and, for single exercises, the scores the instance itself reports.")

prop("C38", "A filter selects exactly the exercises that its search reaches",
  "With any filter, a batch only contains exercises that the search the filter asks for reaches with the current scores, blacklist, review list and superseding relations, besides recently failed ones. Every exercise the search reaches is offered within a number of batches with the same filter, apart from mastered ones, which are left out when others cover them. The search for the dependencies of a unit at some depth starts at the units at the end of every path of that length.",
  ["histories", "inputs"], "every library, history, blacklist, review list and filter",
  "The tests ask for one kind of filter on one library and mostly check that nothing else is offered.",
  ["src/scheduler.rs", "src/scheduler/data.rs"],
  [("search", "src/scheduler.rs: get_candidates_from_graph_helper, get_candidates_from_course, get_candidates_from_review_list, get_initial_candidates"), ("dependencies at a depth", "src/scheduler/data.rs: get_dependencies_at_depth")],
  PUB, SESSION, NOTE + " At most 80 batches are requested for a filter; libraries are small enough for a batch to hold all that is reached.")

prop("C39", "A unit graph holds exactly the additions that were accepted",
  "A unit graph built through its interface, on its own or in an open library, answers every query by the additions made to it, in whatever order and number of calls they came. Additions that contradict it (an ID used twice, an owner of the wrong kind, dependencies of an exercise, of an unknown unit or of a unit on itself, weights outside 0 to 1) are rejected with an error and leave no trace. Checking for cycles succeeds on a graph without cycles, and fails as soon as an addition closes one among dependencies, superseded or encompassed units.",
  ["histories", "inputs"], "every sequence of additions to a unit graph",
  "The tests build a few fixed graphs in one order and look at one kind of relation each.",
  ["src/graph.rs", "src/lib.rs"],
  [("additions", "src/graph.rs: add_lesson_helper, add_exercise_helper, add_dependencies_helper, add_encompassed_helper, add_superseded"), ("sinks and starting lessons", "src/graph.rs: update_dependency_sinks, update_starting_lessons"), ("cycles", "src/graph.rs: check_cycles_helper"), ("the graph of an open library", "src/lib.rs: impl UnitGraph for Trane")],
  ["UnitGraph", "InMemoryUnitGraph", "Trane as UnitGraph"], "model-based property-based testing: generated sequences of accepted and rejected additions, compared with the specification they were made from", NOTE2)

prop("C40", "Requests stay fast on graphs with very many paths",
  "The time of a request does not grow with the number of paths in the graph, only with the number of units and relations. Opening a library, batches with every kind of filter, scores of units, answers, and validation finish within seconds on libraries of a few dozen units that are related along millions of paths by dependencies, superseded or encompassed units.",
  ["inputs"], "every graph of dependencies, superseded and encompassed units",
  "The graphs of the tests have few paths; results are the same, so only the time or memory tells.",
  ["src/scheduler/data.rs", "src/scheduler/unit_scorer.rs", "src/scheduler/reward_propagator.rs", "src/scheduler/review_knocker.rs", "src/scheduler.rs", "src/graph.rs"],
  [("traversals", "src/scheduler/data.rs: get_dependencies_at_depth; src/scheduler/unit_scorer.rs: replace_superseding; src/scheduler/reward_propagator.rs: propagate_rewards; src/scheduler/review_knocker.rs: compute_encompassing_map; src/scheduler.rs: resolve_effective_dependencies, get_candidates_from_graph_helper; src/graph.rs: check_graph_cycles")],
  ["Trane::new_local", "get_exercise_batch", "get_unit_score", "score_exercise", "check_cycles"], "property-based testing: generated layered graphs of growing depth and sequences of requests, against a bound on processor time",
  "Seeded random search over layered graphs. Decides by the processor time of the calling thread, with a bound far above what the unchanged tree needs (about 1 s against 5 s), so slowdowns by a constant factor are not seen.")

prop("C41", "Databases written by earlier versions are upgraded without loss",
  "A library whose databases of trials, deltas, rewards, blacklist and review list are at any stage that their schemas ever had opens, shows exactly the entries that the databases hold with the scores that follow from them, and can be used and opened again like a new one. A database of a later version is refused or read, but never damaged.",
  ["histories", "inputs"], "every combination of the databases' past schema stages (also none), every content, and every use afterwards",
  "Users keep their history over years of versions; the tests only ever open databases that the current version created.",
  ["src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/utils.rs", "src/trane.rs"],
  [("migrations", "migrations() of src/practice_stats.rs, src/practice_deltas.rs, src/practice_rewards.rs, src/blacklist.rs, src/review_list.rs")],
  ["Trane::new_local", "get_scores", "get_deltas", "get_rewards", "get_blacklist_entries", "get_review_list_entries", "get_unit_score", "score_exercise"], "property-based testing: generated databases at historical schema stages, against their content and an instance with the same history (differential)",
  "Seeded random search over combinations of stages and contents. The past schemas are written down in the check, as they were in the migrations of the pinned commit. The databases are made with the SQLite library that the crate uses; damaged files are not part of it.")

prop("C18", "Documents of the published formats keep their meaning",
  "Every manifest, asset, generator configuration, preferences file, saved filter, study session and builder input that follows the documented format is read with exactly the values it states and the documented defaults for optional fields it omits, whatever the order and layout of its fields and whatever further fields it has. Writing what was read and reading it again changes nothing. A document that lacks a required field, has an unknown variant or a value of the wrong type is an error.",
  ["inputs"], "every document of the formats, every layout of it and every single error in it",
  "Courses are files that others wrote with other versions; the tests read a handful that the same code wrote.",
  ["src/data.rs", "src/data/filter.rs", "src/data/course_generator.rs", "src/data/course_generator/knowledge_base.rs", "src/data/course_generator/literacy.rs", "src/data/course_generator/music_piece.rs", "src/data/course_generator/transcription.rs", "src/course_builder.rs", "src/course_builder/knowledge_base_builder.rs"],
  [("formats", "the serde attributes of the types in src/data.rs, src/data/filter.rs, src/data/course_generator and src/course_builder")],
  ["serde_json::from_str", "serde_json::to_string", "serde_json::to_string_pretty"], "property-based testing: generated documents, layouts and single errors, against a table of the formats (reference model) and by round trip",
  "Seeded random search over documents. The table of formats is written by hand from the documentation of the types. Documents inside directories, where paths are resolved, are part of C14 and C22 to C25.")
