"""Which models, driver and trace specification decide each property"""
NOT_APPLICABLE = {}
STORE_MC = [
    dict(module="MC_Store"),
    dict(module="MC_Store", cfg="MC_Store_sim.cfg", simulate=dict(quick=(60, 30), thorough=(900, 30)),
         cases=dict(quick=120, thorough=2500)),
]  # fmt: skip
OBJECTS_MC = [
    dict(module="MC_Objects"),
    dict(module="MC_Objects", cfg="MC_Objects_shared.cfg", expect="violation"),
    dict(module="MC_Objects", cfg="MC_Objects_sim.cfg", simulate=dict(quick=(60, 15), thorough=(600, 15)), cases=dict(quick=32, thorough=500)),
    dict(module="MC_Objects", cfg="MC_Objects_deep.cfg", simulate=dict(quick=(60, 15), thorough=(600, 15)), cases=dict(quick=24, thorough=400)),
]  # fmt: skip
PROJECT_MC = [dict(module="MC_Project"),
              dict(module="MC_Project", cfg="MC_Project_sim.cfg", simulate=dict(quick=(40, 18), thorough=(300, 18)), cases=dict(quick=24, thorough=300)),
              dict(module="MC_Project", cfg="MC_Project_work.cfg", simulate=dict(quick=(40, 18), thorough=(300, 18)), cases=dict(quick=32, thorough=300))]
PROPS = {
    "C01": dict(
        mc=[dict(module="MC_Sampling")],
        driver="drv_sampling:c01",
        trace="T_Sampling",
    ),
    "C02": dict(
        mc=[
            dict(module="MC_Views"),
            dict(module="MC_Views", cfg="MC_Views_sim.cfg", simulate=dict(quick=(40, 6), thorough=(400, 6)), cases=dict(quick=150, thorough=4000)),
        ],
        driver="drv_views:c02",
        trace="T_Views",
        session="start",
    ),
    "C27": dict(mc=[dict(module="MC_Timestamps")], driver="drv_timestamps:c27", trace="T_Timestamps"),
    "C03": dict(
        mc=STORE_MC,
        driver="drv_store:store",
        trace="T_Store",
        session="start",
        clauses=["written", "values_unchanged", "metadata_unchanged", "last_product_read_back", "history_read_back",
                 "other_directories_untouched", "reading_changes_nothing", "nothing_to_read_is_an_error", "ascii_values"],
    ),
    "C28": dict(
        mc=STORE_MC,
        driver="drv_store:store",
        trace="T_Store",
        session="start",
        clauses=["existing_directory_refused", "refusal_leaves_directory_untouched", "written", "directory_created",
                 "last_product_read_back", "values_unchanged", "metadata_unchanged", "ascii_values"],
    ),
    "C04": dict(mc=OBJECTS_MC, driver="drv_objects:objects", trace="T_Objects", session="start",
                clauses=["prepared", "step_ran", "bad_parameters_refused", "nothing_altered", "same_input_same_output", "results_are_their_own"]),
    "C05": dict(mc=OBJECTS_MC, driver="drv_objects:objects", trace="T_Objects", session="start",
                clauses=["prepared", "step_ran", "nothing_altered", "history_is_input_and_one_record", "contributing_histories_kept", "record_truthful"]),
    "C06": dict(
        mc=[dict(module="MC_Decimation"), dict(module="MC_Decimation", cfg="MC_Decimation_two.cfg")],
        driver="drv_decimation:c06", trace="T_Decimation",
    ),
    "C07": dict(
        mc=[dict(module="MC_Decimation", cases=dict(quick=80, thorough=800)),
            dict(module="MC_Decimation", cfg="MC_Decimation_two.cfg", cases=dict(quick=80, thorough=800))],
        driver="drv_decimation:c07", trace="T_Decimation",
    ),
    "C08": dict(
        mc=[dict(module="MC_Windows", cases=dict(quick=250, thorough=3000))],
        driver="drv_windows:c08", trace="T_Windows",
    ),
    "C09": dict(
        mc=[dict(module="MC_Windows", cfg="MC_Windows_pair.cfg", cases=dict(quick=200, thorough=3000))],
        driver="drv_windows:c09", trace="T_Windows",
    ),
    "C10": dict(
        mc=[dict(module="MC_Windows", cases=dict(quick=1, thorough=1))],
        driver="drv_windows:c10", trace="T_Windows",
    ),
    "C11": dict(mc=[dict(module="MC_Spectra", cases=dict(quick=160, thorough=1600))], driver="drv_spectra:c11", trace="T_Spectra"),
    "C12": dict(mc=[dict(module="MC_Interp", cases=dict(quick=150, thorough=1500))], driver="drv_spectra:c12", trace="T_Spectra"),
    "C29": dict(mc=[dict(module="MC_Smooth")], driver="drv_spectra:c29", trace="T_Spectra"),
    "C13": dict(mc=[dict(module="MC_Calibration", cases=dict(quick=150, thorough=1500))], driver="drv_calibration:c13", trace="T_Calibration"),
    "C30": dict(mc=[dict(module="MC_CalText")], driver="drv_calibration:c30", trace="T_Calibration"),
    "C14": dict(mc=[dict(module="MC_Gather", cfg_quick="MC_Gather_small.cfg", cases=dict(quick=120, thorough=1500))], driver="drv_gather:c14", trace="T_Gather"),
    "C15": dict(mc=[dict(module="MC_Gather", cfg_quick="MC_Gather_small.cfg", cases=dict(quick=60, thorough=800))], driver="drv_gather:c15", trace="T_Gather"),
    "C16": dict(mc=[dict(module="MC_Regression", cfg_thorough="MC_Regression_more.cfg", cases=dict(quick=150, thorough=2500))],
                driver="drv_regression:c16", trace="T_Regression"),
    "C17": dict(mc=[dict(module="MC_Regression", cfg_thorough="MC_Regression_more.cfg", cases=dict(quick=1, thorough=1))],
                driver="drv_regression:c17", trace="T_Regression"),
    "C18": dict(mc=[dict(module="MC_Solutions"),
                    dict(module="MC_Solutions", cfg="MC_Solutions_sim.cfg", simulate=dict(quick=(40, 10), thorough=(400, 10)), cases=dict(quick=24, thorough=400))],
                driver="drv_solutions:c18", trace="T_Solutions", session="start"),
    "C19": dict(mc=PROJECT_MC, driver="drv_project:project", trace="T_Project", session="start",
                clauses=["prepared", "existing_project_refused", "refusal_changes_nothing", "created", "project_complete", "nothing_destroyed",
                         "nothing_else_made", "incomplete_project_refused", "loading_changes_nothing", "loaded", "every_site_found",
                         "first_able_reader", "each_measurement_once", "metadata_as_stored", "project_details", "site_range", "project_range"]),
    "C21": dict(mc=PROJECT_MC, driver="drv_project:project", trace="T_Project", session="start",
                clauses=["prepared", "step_ran", "only_own_address_changed", "folders_above_only_made", "output_at_own_address",
                         "same_values_when_repeated", "loading_changes_nothing"]),
    "C20": dict(mc=[dict(module="MC_Queries"), dict(module="MC_Queries", cfg="MC_Queries_two.cfg"),
                    dict(module="MC_Queries", cfg="MC_Queries_sim.cfg", simulate=dict(quick=(80, 20), thorough=(1200, 20)), cases=dict(quick=80, thorough=1200))],
                driver="drv_queries:queries", trace="T_Queries", session="start"),
    "C22": dict(mc=[dict(module="MC_Pipeline"), dict(module="MC_Pipeline", cfg="MC_Pipeline_cases.cfg", cases=dict(quick=160, thorough=2500))],
                driver="drv_pipeline:pipeline", trace="T_Pipeline"),
    "C23": dict(mc=[dict(module="MC_Registry"),
                    dict(module="MC_Registry", cfg="MC_Registry_sim.cfg", simulate=dict(quick=(120, 20), thorough=(1500, 20)), cases=dict(quick=100, thorough=1500))],
                driver="drv_registry:registry", trace="T_Registry", session="start"),
    "C24": dict(mc=[dict(module="MC_SampleWise", cfg_quick="MC_SampleWise_small.cfg"),
                    dict(module="MC_SampleWise", cfg="MC_SampleWise_sim.cfg", simulate=dict(quick=(100, 5), thorough=(1500, 5)), cases=dict(quick=100, thorough=1500))],
                driver="drv_samplewise:samplewise", trace="T_SampleWise", session="start"),
    "C25": dict(mc=[dict(module="MC_Resampling"), dict(module="MC_Resampling", cfg="MC_Resampling_cases.cfg", cases=dict(quick=200, thorough=3000))],
                driver="drv_resampling:resampling", trace="T_Resampling", session="start"),
    "C26": dict(mc=[dict(module="MC_Accessors"),
                    dict(module="MC_Accessors", cfg="MC_Accessors_sim.cfg", simulate=dict(quick=(80, 11), thorough=(1200, 11)), cases=dict(quick=80, thorough=1200))],
                driver="drv_accessors:accessors", trace="T_Accessors", session="start"),
    "C31": dict(mc=[dict(module="MC_EndToEnd", cfg_quick="MC_EndToEnd_small.cfg"), dict(module="MC_EndToEnd", cfg="MC_EndToEnd_slip.cfg", expect="violation")],
                driver="drv_endtoend:endtoend", trace="T_EndToEnd"),
    "C32": dict(mc=[dict(module="MC_Filters"), dict(module="MC_Filters", cfg="MC_Filters_two.cfg"), dict(module="MC_Filters", cfg="MC_Filters_sim.cfg", simulate=dict(quick=(60, 4), thorough=(800, 4)), cases=dict(quick=60, thorough=800))],
                driver="drv_filters:filters", trace="T_Filters", session="start"),
    "C33": dict(mc=[dict(module="MC_Figures", cases=dict(quick=120, thorough=900)), dict(module="MC_Figures", cfg="MC_Figures_angle.cfg", cases=dict(quick=40, thorough=600))], driver="drv_figures:c33", trace="T_Figures", session="start"),
    "C34": dict(mc=[dict(module="MC_Readers", cases=dict(quick=900, thorough=6000))], driver="drv_readers:c34", trace="T_Readers"),
    "C35": dict(mc=[dict(module="MC_Bookkeeping"), dict(module="MC_Bookkeeping", cfg="MC_Bookkeeping_place.cfg", expect="violation"),
                    dict(module="MC_Bookkeeping", cfg="MC_Bookkeeping_sim.cfg", simulate=dict(quick=(120, 17), thorough=(600, 17)), cases=dict(quick=28, thorough=300))],
                driver="drv_bookkeeping:bookkeeping", trace="T_Bookkeeping", session="start"),
    "C36": dict(mc=[dict(module="MC_Interrupted"), dict(module="MC_Interrupted", cfg="MC_Interrupted_keeps.cfg", expect="violation"),
                    dict(module="MC_Interrupted", cfg="MC_Interrupted_first.cfg", expect="violation"),
                    dict(module="MC_Interrupted", cfg="MC_Interrupted_cases.cfg", cases=dict(quick=24, thorough=200))],
                driver="drv_interrupted:c36", trace="T_Interrupted", session="start"),
    "C37": dict(mc=[dict(module="MC_Interleaved"), dict(module="MC_Interleaved", cfg="MC_Interleaved_strict.cfg", expect="violation"),
                    dict(module="MC_Interleaved", cfg="MC_Interleaved_scratch.cfg", expect="violation"),
                    dict(module="MC_Interleaved", cfg="MC_Interleaved_cases.cfg", cases=dict(quick=40, thorough=70)),
                    dict(module="MC_Interleaved", cfg="MC_Interleaved_sim.cfg", simulate=dict(quick=(60, 14), thorough=(600, 14)), cases=dict(quick=20, thorough=300))],
                driver="drv_interleaved:c37", trace="T_Interleaved", session="start"),
}
