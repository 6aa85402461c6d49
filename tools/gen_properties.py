#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if "install" in f else "OpenNTN/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=None)))
SCN = "OpenNTN/system_level_scenario.py"; CH = "OpenNTN/system_level_channel.py"
UT = "OpenNTN/utils.py"; RA = "OpenNTN/rays.py"; CO = "OpenNTN/channel_coefficients.py"
LS = "OpenNTN/lsp.py"; AN = "OpenNTN/antenna.py"
TD = "OpenNTN/tdl.py"

prop("N01", "Partial topology updates are equivalent to one full update",
 "After any sequence of topology updates, every input an update leaves out keeps the value it was last given (environment inputs start at their documented defaults), so the locations, orientations, velocities, indoor states, environment and everything derived deterministically from them (distances, LoS angles, free-space, gas and scintillation loss) are those of a fresh model given the latest values in one update. An update that would leave a mandatory input unset is rejected with an error and changes nothing. Updates of orientations, velocities or environment alone do not redraw any random state.",
 ["histories", "inputs"], "Every sequence of accepted and rejected partial updates, on the scenario and through the channel model, for every subset of inputs and any values.",
 "The tests set one full topology once per model; no test updates a topology a second time or leaves inputs out.",
 ["system_level_scenario.py", "system_level_channel.py"],
 [("partial topology update", SCN + ": SystemLevelScenario.set_topology"), ("forwarding update", CH + ": SystemLevelChannel.set_topology")],
 [("topology inputs", "last given value of each input"), ("derived quantities", "distances, angles, losses computed at the update")],
 ["public properties of the scenario after each update"])

prop("N02", "Large-scale parameters live exactly as long as configured",
 "By default a channel model draws its large-scale parameters (and the random part of its pathloss) once per topology update that gives locations, indoor states or a LoS request, and every channel realisation until the next such update uses exactly these values; updates of orientations and velocities alone keep them. When configured to always generate them, every realisation uses freshly drawn ones (the pathloss is still drawn per topology update). The values used always belong to the current topology: right batch, BS and UT counts, and the statistics of the current LoS states.",
 ["histories", "configurations"], "Every interleaving of full and partial topology updates and channel realisations, for both generation policies, both directions and changing topology sizes.",
 "Tests call a model once after one topology update; whether values persist or are redrawn only shows over histories of updates and calls.",
 ["system_level_channel.py", "lsp.py"],
 [("LSP reuse", CH + ": SystemLevelChannel.set_topology/__call__"), ("LSP sampling", LS + ": LSPGenerator.__call__")],
 [("held LSPs", "LSPs used by the realisations since the last update")],
 ["large-scale parameters handed to the ray generator at each realisation"])

prop("N03", "LoS states follow request, indoor state and table probability",
 "A link is in LoS only if its UT is outdoors. If a LoS state was requested, all outdoor links take it, also after later updates that do not repeat the request; otherwise each outdoor link is in LoS independently with the tabulated probability for the scenario and the tabulated elevation nearest to the configured one, redrawn at every update of locations or indoor states. LoS states are held per batch example, BS and UT.",
 ["histories", "configurations", "inputs"], "All sequences of updates and requests, all indoor patterns, all scenarios, bands, directions and elevations in [10, 90] degrees.",
 "Tests check the LoS ratio for single fresh topologies at few elevations with all UTs outdoors; persistence of a request, indoor UTs and independence between links are not reached.",
 ["system_level_scenario.py", "urban_scenario.py", "dense_urban_scenario.py", "sub_urban_scenario.py", "utils.py"],
 [("LoS sampling", SCN + ": SystemLevelScenario._sample_los"), ("LoS probability", "OpenNTN/*_scenario.py: los_probability"), ("Bernoulli sampling", UT + ": sample_bernoulli")],
 [("requested LoS state", "last request, or none")], ["los and indoor properties of the scenario"])

prop("N04", "Every link uses the 3GPP table entry of its own configuration",
 "For every scenario, band, direction and elevation angle, every statistical parameter of a link (means and spreads of all large-scale parameters, LoS probability, cluster count, delay scaling, per-cluster shadowing, cluster angle and delay spreads, cross-polarisation ratio, correlation distances and cross-correlations, clutter loss, angle scaling constants) equals the value the 3GPP TR 38.811 tables give for that scenario, the link's own LoS state, the band and direction, at the tabulated elevation nearest to the configured one. Links of one topology in different LoS states use different columns at the same time. Values of minus infinity in a table act as a vanishing spread.",
 ["configurations", "inputs"], "3 scenarios x 2 bands x 2 directions x LoS/NLoS x all elevations x all parameters, and every mix of LoS states among links.",
 "The tests compare samples of some means and deviations at selected elevations; the about 11000 table cells and all roundings and LoS mixes are out of their reach.",
 ["system_level_scenario.py", "urban_scenario.py", "dense_urban_scenario.py", "sub_urban_scenario.py", "models/Urban_LOS_S_band_DL.json"],
 [("table selection", "OpenNTN/*_scenario.py: los_parameter_filepath, nlos_parameter_filepath"), ("entry selection", SCN + ": SystemLevelScenario.get_param"), ("LSP statistics", "OpenNTN/*_scenario.py: _compute_lsp_log_mean_std"), ("tables", "OpenNTN/models/*.json")],
 [], ["get_param, lsp_log_mean, lsp_log_std, num_clusters_* of the scenario"])

prop("N05", "Exactly the supported configurations are accepted",
 "Creating a channel model succeeds for every direction uplink or downlink, every carrier frequency in 1.9-4 GHz or 19-40 GHz (limits included), every elevation angle in 10-90 degrees (limits included) and panel arrays designed for that very carrier frequency, and is refused with an error as soon as one of these does not hold. Antenna elements and arrays are created exactly for the documented radiation patterns and polarisation combinations, and topologies exactly for the documented scenario names. An accepted configuration can be given a topology and produces a finite channel.",
 ["configurations"], "Every combination of direction, carrier, elevation, array carriers and types, patterns, polarisations and scenario names, including values at and just beyond each limit.",
 "Tests try a few illegal carriers per scenario; combinations, limits, elevations and array mismatches on either end are mostly untested.",
 ["system_level_scenario.py", "antenna.py", "utils.py", "urban.py", "dense_urban.py", "sub_urban.py"],
 [("admission", SCN + ": SystemLevelScenario.__init__"), ("antenna admission", AN + ": AntennaElement.__init__, PanelArray.__init__"), ("scenario names", UT + ": set_3gpp_scenario_parameters")],
 [], ["outcome of constructors, topology generation and one realisation"])

prop("N06", "Slant range and LoS angles are geometrically right for every link",
 "For every batch example, BS and UT, the slant range follows from that BS's own height and the configured elevation angle over a spherical Earth of radius 6371 km; the 2D distances between BS and UT and between UTs follow from their coordinates. The LoS departure azimuth and zenith point from the BS to the UT, the arrival angles point the opposite way, azimuths lie in [0, 360) and zeniths in [0, 180] degrees. The indoor part of a link's 2D distance lies in [0, 10) m for indoor UTs, drawn per UT, and is zero outdoors, the 3D distance splits in the same proportion, indoor and outdoor parts add up to the whole, the correlation of two UTs for a correlation distance D is exp(-d/D), and no link's geometry depends on another batch example, BS or UT.",
 ["inputs", "configurations"], "Any heights (also different per example and BS), positions in all quadrants, elevations, batch sizes and numbers of BSs and UTs.",
 "Tests use one BS at one height for the whole batch and UTs in one quadrant, and no stable test looks at arrival zenith or per-example heights.",
 ["system_level_scenario.py"],
 [("geometry", SCN + ": SystemLevelScenario._compute_distance_2d_3d_and_angles"), ("indoor parts", SCN + ": SystemLevelScenario._sample_indoor_distance"), ("correlation", SCN + ": SystemLevelScenario.spatial_correlation_matrix")],
 [], ["distance_* and los_* properties of the scenario"])

prop("N07", "Pathloss is the sum of the standard's components, link by link",
 "The free-space loss is 32.45 + 20 log10(f/GHz) + 20 log10(d/m) with the link's slant range; the basic loss adds, for NLoS links only, the tabulated clutter loss, and a zero-mean normal shadowing with the tabulated deviation of the link's LoS state. The gas loss (ITU-R P.676 with the configured temperature, pressure and water vapour, divided by the sine of the elevation), the scintillation loss (ionospheric below 6 GHz, tropospheric with the configured temperature, humidity, antenna diameter and efficiency above) follow the standard, entry loss is zero outdoors, and the total is the sum of the four.",
 ["inputs", "configurations", "histories"], "All carriers in both bands, elevations, heights, LoS mixes and environments, also after environment updates.",
 "Tests compare totals against reference values at a few carriers and the default environment with tolerances of decibels; environment dependence, link mixing and the NLoS-only clutter loss are not pinned.",
 ["utils.py", "lsp.py"],
 [("basic loss", UT + ": compute_pathloss_basic"), ("gas loss", UT + ": compute_pathloss_gas"), ("scintillation", UT + ": compute_pathloss_scintilation"), ("total", LS + ": LSPGenerator.sample_pathloss")],
 [], ["*_pathloss properties of the scenario, sampled total pathloss"])

prop("N08", "Each realisation carries exactly its link's attenuation, as switched",
 "The coefficients of every link are the normalised small-scale coefficients times 10^(-PL/20) times the square root of that link's shadow fading, with PL the total pathloss of the very same BS-UT pair and batch example in either direction. With pathloss disabled no pathloss, and with shadow fading disabled no random shadowing whatsoever, enters the output. Delays are not affected.",
 ["configurations", "inputs"], "Both directions, all four switch settings, several BSs, UTs and batch examples with different losses.",
 "Tests exercise the scaling for one direction and equal-size ends; a swapped link in uplink or shadowing leaking through a disabled switch does not show.",
 ["system_level_channel.py", "lsp.py", "utils.py"],
 [("gain", CH + ": SystemLevelChannel._step_12"), ("total loss", LS + ": LSPGenerator.sample_pathloss"), ("shadowing in basic loss", UT + ": compute_pathloss_basic")],
 [], ["output coefficients against the coefficients before scaling"])

prop("N09", "Uplink and downlink outputs are laid out and aligned per link",
 "A realisation returns coefficients indexed by batch example, receiver, receiver antenna, transmitter, transmitter antenna, path, time and delays indexed by batch example, receiver, transmitter, path, with UTs transmitting in uplink and BSs in downlink, as many paths as the larger cluster count of the configuration plus four, and the requested number of time samples, also when called with a leading batch size. Entry (i, j) of either output belongs to exactly that UT-BS link: its LoS state, angles, K-factor, orientation, velocity and delays, with arrival and departure exchanged between the two directions.",
 ["configurations", "inputs"], "Both directions, different numbers of UTs, BSs and antennas per end, asymmetric arrays, mixed LoS states, both call forms.",
 "Tests mostly use square or single-link shapes or check shapes only, where swapped axes and mixed-up links are invisible.",
 ["system_level_channel.py"],
 [("direction handling and output layout", CH + ": SystemLevelChannel.__call__")],
 [], ["outputs of a realisation and the inputs of the coefficient generation"])

prop("N10", "Cluster delays and powers satisfy the standard's normal form",
 "For every link the cluster delays are non-negative, ascending and start at zero, scale linearly with the delay spread, and in LoS are divided by the K-factor dependent correction of the standard. Exactly the clusters of the link's LoS state carry power, all others carry none; powers sum to one, decrease with delay in the mean as the delay scaling prescribes, and the powers used for angles of LoS links additionally contain the specular part K/(K+1) on the first cluster and the rest scaled by 1/(K+1).",
 ["inputs", "configurations"], "Every scenario, band, direction, elevation, mix of LoS states and any delay spread and K-factor values.",
 "Tests compare ensemble statistics of a few configurations with a homogeneous LoS state.",
 ["rays.py"],
 [("delays", RA + ": RaysGenerator._cluster_delays"), ("powers", RA + ": RaysGenerator._cluster_powers"), ("cluster mask", RA + ": RaysGenerator._compute_clusters_mask"), ("assembly", RA + ": RaysGenerator.__call__")],
 [], ["rays handed to the coefficient generation; cluster delay and power stages"])

prop("N11", "Ray angles, coupling and cross-polarisation follow the standard",
 "Within each cluster the 20 rays lie around the cluster's angle at the standard's symmetric offsets times the tabulated cluster spread, for BSs at 160 km or above the departure clusters lie exactly in the LoS direction (plus the standard's offset), in LoS the first arrival cluster lies exactly in the LoS direction, and the other cluster angles have the standard's power-dependent distance from it. Azimuths lie in [-180, 180] and zeniths in [0, 180] degrees. Random coupling only permutes the rays inside a cluster, and cross-polarisation ratios are log-normal with the tabulated mean and deviation.",
 ["inputs", "configurations"], "All scenarios, bands, directions, elevations, LoS mixes, angle spreads, K-factors, BS heights (also mixed) and cluster powers.",
 "Tests compare histograms of angles per configuration; a wrong offset of one ray, lost or duplicated rays in coupling, or a wrapped zenith stay within their tolerances.",
 ["rays.py"],
 [("azimuths", RA + ": RaysGenerator._azimuth_angles"), ("zeniths", RA + ": RaysGenerator._zenith_angles"), ("coupling", RA + ": RaysGenerator._random_coupling"), ("XPR", RA + ": RaysGenerator._cross_polarization_power_ratios")],
 [], ["angle, coupling and XPR stages; rays handed to the coefficient generation"])

prop("N12", "The two strongest clusters split into the standard's sub-clusters",
 "For every link, exactly the two clusters with the largest powers are split into three paths each, made of the standard's 10, 6 and 4 rays, delayed by 0, 1.28 and 2.56 times the tabulated cluster delay spread; every other cluster gives one path made of all its rays. No ray is lost or used twice, so the sum over all paths is the sum over all rays. Paths come in ascending order of delay, and each path's coefficient stays with its own delay.",
 ["inputs", "configurations"], "Any cluster powers and delays (ties, any order of strength, few clusters), any link mix, with and without sub-clustering.",
 "Tests recompute the result with a copy of the same indexing for one configuration of random powers.",
 ["channel_coefficients.py"],
 [("sub-clusters", CO + ": ChannelCoefficientsGenerator._step_11_reduce_nlos")],
 [], ["paths of the coefficient generator for given rays and phases"])

prop("N13", "Channel coefficients equal the standard's formula for their inputs",
 "Given the rays, random phases, antenna arrays, orientations, K-factor and LoS states, every output coefficient equals the sum over its rays of receive field pattern, cross-polarised phase matrix, transmit field pattern, array phases of both ends and motion phase, weighted with the square root of the ray power, with field patterns and element positions rotated by each end's own orientation. LoS links add the specular path with phase given by the slant range to the first path, weighted K/(K+1) against 1/(K+1) in power; NLoS links are untouched by K and the specular path.",
 ["inputs", "configurations"], "Any rays, phases, orientations of either end, single and dual polarised asymmetric arrays of all patterns, K-factors and LoS mixes, several transmitters and receivers.",
 "Tests re-implement the steps for one array type, one orientation pattern and single links; asymmetric arrays, rotations on both ends and link mixes are not covered.",
 ["channel_coefficients.py", "antenna.py"],
 [("phases, fields, arrays", CO + ": ChannelCoefficientsGenerator._step_11_*"), ("rotations", CO + ": ChannelCoefficientsGenerator._gcs_to_lcs, _l2g_response")],
 [], ["output of the coefficient generator with its random phases"])

prop("N14", "Doppler: time evolution is exactly that of UT and satellite motion",
 "Sample k of a realisation is taken at time k divided by the sampling frequency, and over time every ray rotates at the rate of the projection of the UT's own velocity on the ray's direction at the UT, in either direction. If Doppler is enabled, all rays of links of a BS at 600 km height or above rotate additionally at a common rate per batch example whose magnitude is at most that of the orbital speed at that BS's height, reduced by the Earth-to-orbit radius ratio and projected by the cosine of the elevation, and which is that magnitude times the cosine of a uniformly random heading; otherwise there is no additional rotation. A static UT without satellite Doppler gives a channel that is constant in time.",
 ["inputs", "configurations"], "All velocities, sampling frequencies, heights (below and above 600 km, mixed over examples and BSs), directions, and both switch settings.",
 "Tests use static UTs or copy the code's formula with its own satellite rate; gating, per-example rates and the rate's bound are not tested.",
 ["channel_coefficients.py", "system_level_channel.py", "utils.py"],
 [("rotation", CO + ": ChannelCoefficientsGenerator._step_11_doppler_matrix"), ("satellite rate", CO + ": Topology.__init__"), ("orbital speed", UT + ": compute_satellite_speed")],
 [], ["coefficients over time; satellite rate of the topology object"])

prop("N15", "Faraday rotation applies exactly to satellite links",
 "For links of BSs at 600 km or above the polarisation of every ray and of the specular path is rotated by 108 degrees divided by the square of the carrier in GHz; for links of lower BSs it is not rotated at all. This holds for each batch example and BS on its own, in both directions, in LoS and NLoS.",
 ["inputs", "configurations"], "All carriers of both bands, heights around and far from the limit, mixed over batch examples and BSs, both directions, LoS and NLoS, all polarisations.",
 "Tests run at satellite heights only and copy the matrix from the code.",
 ["channel_coefficients.py"],
 [("rotation matrix", CO + ": ChannelCoefficientsGenerator._step_11_faraday_rotation"), ("gating", CO + ": _step_11_nlos, _step_11_los")],
 [], ["coefficients of dual-polarised isotropic arrays"])

prop("N16", "Large-scale parameters have the specified joint distribution",
 "Delay spread, angle spreads, K-factor and shadow fading of a link are log-normal with the tabulated means and deviations of its LoS state, azimuth spreads capped at 104 and zenith spreads at 52 degrees. The parameters of a UT without neighbours have the tabulated cross-correlations (which neighbours can only weaken); the same parameter of two UTs in the same LoS state seen from the same BS is correlated exponentially in their 2D distance with the tabulated correlation distance, and UTs in different LoS states, different BSs and different batch examples are uncorrelated.",
 ["inputs", "configurations"], "All configurations, all distance patterns and LoS mixes, over the distribution of draws.",
 "Tests check marginal means and deviations and some correlation at fixed settings with one LoS state; joint structure across mixed links is not covered.",
 ["lsp.py", "system_level_scenario.py"],
 [("LSP sampling", LS + ": LSPGenerator.__call__"), ("cross-correlation", LS + ": LSPGenerator._compute_cross_lsp_correlation_matrix"), ("spatial correlation", LS + ": LSPGenerator._compute_lsp_spatial_correlation_sqrt")],
 [], ["correlation factors and large samples of large-scale parameters"])

prop("N17", "Antenna arrays have the specified elements, positions and patterns",
 "A panel array has panels x rows x columns x polarisations elements in the specified order, placed in the y-z plane at the given spacings (half a wavelength by default), centred on the origin and scaled with the wavelength of its carrier. Single polarisation V or H uses slant 0 or 90 degrees, dual VH uses 0 and 90, dual cross -45 and +45, and each element belongs to exactly one polarisation. Every element's field splits the documented power pattern (isotropic, 38.901, circular aperture, co-phased dual-linear) with the cosine and sine of its slant angle.",
 ["configurations", "inputs"], "All array sizes, panel counts, spacings, polarisations, patterns and carriers, and all directions of the sphere.",
 "Tests only use small default arrays as inputs and never look at element positions, slants or pattern values.",
 ["antenna.py"],
 [("elements", AN + ": PanelArray.__init__, AntennaPanel.__init__"), ("patterns", AN + ": AntennaElement")],
 [], ["positions, indices and fields of arrays and elements"])

prop("N18", "Generated topologies place UTs and satellite as specified",
 "A generated topology has the BS at (0, 0, height) facing straight down and UTs inside a square of side one inter-site distance around one common centre that sees the BS under the requested elevation angle, with UT heights and horizontal speeds in the requested ranges, all UTs outdoors and every UT's array facing the BS at that elevation. Position, height, speed and heading are drawn separately for every UT of every batch example; quantities that are not given take the documented scenario defaults. Shapes and types are those the channel models accept.",
 ["inputs", "configurations", "histories"], "All scenarios, elevations, heights, ranges, batch and UT numbers, given and omitted arguments, over the random draws.",
 "Tests use the generator as a fixture and check only elevation related averages.",
 ["utils.py"],
 [("topology", UT + ": gen_single_sector_topology, generate_uts_topology"), ("drop", UT + ": drop_uts_in_sector, relocate_uts"), ("defaults", UT + ": set_3gpp_scenario_parameters")],
 [], ["tensors returned by the generator"])

prop("N19", "Tapped delay line models realise their profile",
 "A TDL model has the tabulated normalised profile of its name: tap powers sum to one, K-factor and LoS tap as given, delays are the profile times the delay spread in force (also after it is changed; A30, B100 and C300 keep their fixed delays), the same for every batch example. Over realisations each tap of each antenna pair has its tabulated mean power, transmit, receive or full correlation matrices give exactly the requested antenna correlation, and with the satellite at the zenith the phase of the specular part advances with the cosine of its angle of arrival times the receiver's Doppler and the diffuse parts stay within the receiver's Doppler and age by its Bessel law, every batch example having a speed of its own, uniform in the given range. Unknown names, too low base stations, elevations outside 0 to 90 degrees and inverted speed ranges are refused.",
 ["configurations", "inputs", "histories"], "All profiles, delay spreads, carriers, speeds, antenna numbers, correlation matrices, sampling rates and both precisions, over the random draws.",
 "No test of the repository touches the TDL models.",
 ["tdl.py"],
 [("profiles", TD + ": TDL._load_parameters, delays, mean_powers"), ("realisations", TD + ": TDL.__call__"), ("correlation", TD + ": TDL.__init__ (spatial_corr_mat, rx_corr_mat, tx_corr_mat)")],
 [], ["properties of the model; delays and coefficients of realisations"])

prop("N20", "Channel conversions preserve the impulse response they are given",
 "The frequency response at each frequency is the sum over paths of coefficient times the phase of minus 2 pi f times its delay; discrete-time taps are the sum over paths of coefficient times sinc(l - W tau); the OFDM response of taps is their discrete Fourier transform at each OFDM symbol start with the zero subcarrier centred. Normalisation, if requested, gives every batch example and link unit average energy and changes nothing else. Subcarrier frequencies and time lags are the documented ranges for even and odd sizes.",
 ["inputs", "configurations"], "All path counts, delays, antenna numbers, time samples, bandwidths, numbers of subcarriers, with and without normalisation and per-antenna delays.",
 "No test of the repository touches these functions.",
 ["utils.py"],
 [("conversions", UT + ": cir_to_ofdm_channel, cir_to_time_channel, time_to_ofdm_channel"), ("ranges", UT + ": subcarrier_frequencies, time_frequency_vector, time_lag_discrete_time_channel")],
 [], ["outputs of the conversion functions"])

prop("N21", "The requested numerical precision is honoured end to end",
 "With double precision requested, topology generation, arrays, every derived quantity and the outputs of every channel model are double precision, and deterministic quantities (geometry, losses, coefficients for given rays and phases) are accurate to double precision; with single precision, or none requested, they are single precision. No accepted configuration fails because of its precision.",
 ["configurations", "inputs"], "All scenarios, bands, directions, patterns and both precisions.",
 "Tests only run the default precision.",
 ["system_level_scenario.py", "utils.py", "channel_coefficients.py", "rays.py", "lsp.py", "antenna.py"],
 [("precision", "OpenNTN/*.py: rdtype/cdtype of each object")],
 [], ["types and accuracy of public properties and outputs"])

prop("N22", "Realisations are fresh, independent over links, and seed-reproducible",
 "Every realisation draws new small-scale randomness (delays, powers, angles, phases), also between repeated executions of one compiled function, and different links and batch examples never share it (random signs and ray couplings, as in the underlying model, are common to the UTs of a BS). Setting both random seeds (Sionna's and TensorFlow's) before a simulation reproduces it bit by bit. Running a model inside a compiled function gives outputs of the same shape, layout and deterministic content as running it eagerly.",
 ["histories", "configurations"], "All models and directions, eager and compiled execution, repeated calls and any seed.",
 "Tests call a model once in eager mode; frozen randomness or sharing between examples passes every ensemble test with a single call.",
 ["system_level_channel.py", "rays.py", "lsp.py", "channel_coefficients.py", "utils.py"],
 [("random draws", "OpenNTN/*.py: tf.random and configured generators"), ("compiled execution", CH + ": SystemLevelChannel.__call__")],
 [], ["outputs of repeated, compiled and reseeded realisations"])

prop("N23", "Correlation matrices and angle helpers follow their definitions",
 "Exponential correlation matrices have entries a^(i-j) below and the conjugates above the diagonal, one-ring matrices the phase and the Gaussian decay of their angle, spread and spacing; all of them are Hermitian and positive semidefinite with unit diagonal for inputs of any rank, in the requested precision, and |a| >= 1 is refused. Degree and radian conversions are inverse and exact, wrapping an angle keeps its direction and lands within 0 and 360 degrees, and Bernoulli samples have the given probability for each entry, independently, with 0 and 1 being certain.",
 ["inputs", "configurations"], "All values, ranks and sizes, both precisions, zero and boundary values, random draws.",
 "No test of the repository touches the correlation matrices; the helpers are only used indirectly.",
 ["utils.py"],
 [("matrices", UT + ": exp_corr_mat, one_ring_corr_mat"), ("angles", UT + ": deg_2_rad, rad_2_deg, wrap_angle_0_360"), ("samples", UT + ": sample_bernoulli")],
 [], ["outputs of the functions"])

prop("N24", "Installing integrates OpenNTN once and never damages Sionna",
 "After the installation scripts ran any number of times, in any order, and also after runs that failed to write or were ended at any point, Sionna's channel module is complete at every moment: it is either the file as it was or the same file with exactly one import of tr38811 directly after its import of tr38901, still valid Python, with its permissions kept and every other line unchanged. A run that is not disturbed leaves the import in place if tr38901 is imported there and changes nothing if tr38811 is already imported or tr38901 is not; the shell script moreover leaves the link tr38811 pointing to the package just installed, whatever it pointed to before, and leaves nothing else behind. This holds for the current and the legacy scripts.",
 ["histories", "crash_points", "fault_sequences", "configurations"], "All contents of the channel module, former links, histories of runs, failing writes and crashes between any two steps.",
 "No test runs the installation scripts; repetition, failing writes and crashes cannot be sampled by the unit tests of a numerical library.",
 ["post_install.py", "post_install_legacy.py", "install.sh", "install_legacy.sh"],
 [("integration", "post_install.py: modify_vanilla_sionna"), ("legacy integration", "post_install_legacy.py: modify_vanilla_sionna"), ("link", "install.sh, install_legacy.sh")],
 [], ["files of a Sionna installation after running the scripts"])

prop("N25", "Figures show the configured deployment, arrays and patterns",
 "Showing a topology draws every BS and UT of the requested batch example, and no other, at its coordinates in the unit stated on the axes (one unit for all axes), with its own index, its own orientation as red, green and blue x, y and z axes, and the UTs grouped by their LoS state towards the requested BS. Panels and arrays are drawn with every element at its position, numbered as its antenna index, with markers along the field of its polarization; element patterns are drawn with the gain of the antenna in every direction, in either precision. Figures show what is in force when they are made and showing changes nothing.",
 ["configurations", "inputs", "histories"], "All models, batch examples, BSs, positions near and far, orientations, array layouts, patterns and both precisions.",
 "No test draws a figure; exchanged indices, axes, units or batch examples give plausible pictures.",
 ["system_level_channel.py", "antenna.py"],
 [("deployment", CH + ": SystemLevelChannel.show_topology"), ("arrays", "OpenNTN/antenna.py: AntennaElement.show, AntennaPanel.show, PanelArray.show, PanelArray.show_element_radiation_pattern")],
 [], ["artists of the figures"])

prop("N26", "Channel models work inside Sionna's OFDM and time channel blocks",
 "System-level models and TDLs answer requests in the form Sionna's channel blocks use (batch size, samples, sampling frequency) exactly as those in the short form: same layout, same response from the same random state, for the topology in force, constant in time when nothing moves and the Doppler is off. An OFDMChannel or TimeChannel around a model returns the frequency response or the taps of the impulse response the model gave (per-link unit power if normalised), and every receive antenna hears exactly the sum of all transmit antennas' signals through them. This holds in both directions and precisions, eagerly and compiled, and after topologies change between uses of one block.",
 ["histories", "configurations", "inputs"], "All models, directions, precisions, sizes, execution modes and histories of topology updates, requests and transmissions.",
 "No test of the repository uses a model inside a channel block or passes the batch size with a request; stale topologies, exchanged axes or ignored arguments appear only there.",
 ["system_level_channel.py", "tdl.py", "utils.py"],
 [("requests", CH + ": SystemLevelChannel.__call__"), ("TDL requests", "OpenNTN/tdl.py: TDL.__call__"), ("frequency response and taps", UT + ": cir_to_ofdm_channel, cir_to_time_channel")],
 [], ["outputs of channel blocks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
