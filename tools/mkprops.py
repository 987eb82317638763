#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as one place to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
SM="The two stable tests decode one valid mono sine stream each and compare PCM; "
p("C01","Decoding arbitrary bytes never corrupts memory",
 "Whatever bytes are presented as an MHAS stream, the decoder library never reads or writes outside the memory it owns or was given, never uses freed memory, never indexes a table or array outside its bounds, and never divides an integer by zero or dereferences a null pointer. Malformed or unsupported content ends in an error code or in concealment, never in a crash.",
 ["inputs","configurations"],"every byte string, every output configuration, every mutation or truncation of a valid stream with channels, objects, HOA, DRC, downmix, multichannel-tool, LPD, stereo and metadata payloads",
 SM+"no malformed stream is ever decoded.",
 ["decoder/impeghd_mhas_parse.c","decoder/ia_core_coder_init_config.c","decoder/ia_core_coder_ext_ch_ele.c","decoder/ia_core_coder_process.c","decoder/impd_drc_static_payload.c","decoder/impd_drc_dynamic_payload.c","decoder/impeghd_hoa_config.c","decoder/impeghd_oam_dec.c","decoder/impeghd_metadata_preprocessor.c"],
 [("range checks on every parsed count and index before it is used","decoder/*parse*, decoder/ia_core_coder_init_config.c"),("bit buffer stops at the end of the presented bytes","decoder/ia_core_coder_bitbuffer.c")],
 ["ia_mpegh_dec_init","ia_mpegh_dec_execute"])
p("C02","A damaged MP4 file cannot crash the file player",
 "For every file content, the command-line decoder's MP4 path terminates and never reads or writes outside its buffers, whatever box sizes, sample tables, chunk tables, edit lists or truncations the file carries.",
 ["inputs"],"every byte string offered as an .mp4/.m4a file",
 SM+"only one well-formed MP4 file is read.",
 ["test/mp4/impeghd_mp4_file.c","test/mp4/impeghd_mp4_parser.c","test/mp4/impeghd_mp4_demux.c","test/impeghd_main.c"],
 [("box size and table bounds checks","test/mp4/"),("cookie-sized read buffers","test/mp4/impeghd_mp4_demux.c")],["process exit, sanitizer reports"])
p("C03","Hostile side-information inputs never corrupt memory",
 "Whatever bytes are supplied as element-interaction, local-setup, scene-displacement or binaural-filter side information, alone or together with any stream, the decoder never accesses memory outside its own or the caller's buffers and never stops making progress.",
 ["inputs","configurations"],"every content and length of the four side-information buffers, with each kind of scene",
 "The tests never pass any side-information buffer.",
 ["decoder/impeghd_ele_interaction_intrfc.c","decoder/impeghd_scene_displacement.c","decoder/impeghd_binaural.c","decoder/impeghd_api.c"],
 [("length-checked side-information parsers","decoder/impeghd_ele_interaction_intrfc.c")],["ia_mpegh_dec_init","ia_mpegh_dec_execute"])
p("C04","Every call makes bounded progress through the input",
 "Each initialise or decode call returns, reports a number of consumed bytes between zero and the number presented, and a caller that keeps presenting a finite input reaches its end in a number of calls bounded by the input length, because a call that consumes nothing only happens when it has produced output or needs more data. The status of every call is either success or one of the published error classes.",
 ["inputs","histories"],"every byte string and every way of cutting it into calls",
 SM+"a stall on damaged input cannot show.",
 ["decoder/impeghd_api.c","decoder/ia_core_coder_headerdecode.c","decoder/ia_core_coder_decode_main.c"],
 [("consumed-byte accounting","decoder/impeghd_api.c"),("resynchronisation after errors","decoder/ia_core_coder_decode_main.c")],["i_bytes_consumed","return code"])
p("C05","Output byte counts are exact and audio is neither lost nor invented",
 "Every decode call reports exactly the bytes of whole sample frames it wrote (channels times bytes per sample times samples), never writes past them or past the output buffer, and reports none when it decodes no frame. Over a stream of N valid frames the total is exactly N frames of audio less the fixed start-up delay that is trimmed once, for every layout, word length and frame content.",
 ["inputs","configurations","histories"],"every valid stream, layout, PCM word length and input slicing",
 SM+"one channel, one word length and one slicing are seen.",
 ["decoder/impeghd_api.c","decoder/ia_core_coder_decode_main.c"],
 [("output sample-count computation and delay trimming","decoder/ia_core_coder_decode_main.c")],["num_out_bytes","output buffer"])
p("C06","Output depends only on the stream and the configuration",
 "Decoding the same bytes with the same configuration always yields the same PCM and the same statuses, whatever the memory handed to the decoder, its stack, or its earlier use contained. No decision or output sample is ever computed from a value that was never written.",
 ["inputs","configurations","histories"],"every stream and every initial memory content, on valid and damaged streams",
 "The tests run once in fresh zeroed pages, where reading unset memory is invisible.",
 ["decoder/impeghd_api.c","decoder/ia_core_coder_create.c","decoder/impeghd_mhas_parse.c"],
 [("instance memory cleared at creation","decoder/impeghd_api.c"),("per-call scratch fully written before use","decoder/*")],["PCM, statuses, memory-sanitizer reports"])
p("C07","Decoder instances never influence each other",
 "Any number of decoder instances, interleaved in one thread or run in parallel threads, each produce exactly what they produce alone, for any mix of streams and configurations. The library keeps no writable state shared between instances.",
 ["schedules","histories","configurations"],"every interleaving of init/decode/delete calls of several instances over different scenes, every thread schedule",
 "The tests use a single instance.",
 ["decoder/impeghd_api.c","decoder/ia_core_coder_create.c","decoder/impeghd_multichannel.c","decoder/ia_core_coder_huff_tools.c"],
 [("all state lives in per-instance memory; tables are read-only","decoder/*")],["PCM of each instance, data-race reports"])
p("C08","How the input is sliced into calls does not change the audio",
 "Presenting a valid stream in any sequence of buffer fills that holds whole packets, from one packet at a time to the whole file at once, yields the same PCM bytes in total and the same statuses apart from requests for more data. A decoder fed a prefix of a stream has produced a prefix of the full stream's PCM.",
 ["inputs","histories"],"every slicing of every valid stream into calls, and every truncation point",
 SM+"one fixed slicing is used.",
 ["decoder/impeghd_api.c","decoder/impeghd_mhas_parse.c","decoder/ia_core_coder_decode_main.c"],
 [("packet-wise parsing and consumed-byte reporting","decoder/impeghd_mhas_parse.c")],["PCM stream"])
p("C09","Packets that carry no audio do not change the audio",
 "Inserting synchronisation, filler, marker, CRC, or reserved-type packets of any legal length and label between the packets of a valid stream, or repeating an identical configuration packet, leaves the decoded PCM unchanged.",
 ["inputs","histories"],"every valid stream, insertion point, packet type, label and length",
 SM+"the streams hold one fixed packet sequence.",
 ["decoder/impeghd_mhas_parse.c","decoder/ia_core_coder_headerdecode.c","decoder/ia_core_coder_decode_main.c"],
 [("packet header parsing and skipping of unused types","decoder/impeghd_mhas_parse.c"),("comparison of configuration packets","decoder/ia_core_coder_decode_main.c")],["PCM stream"])
p("C10","MP4 and raw packet files of the same frames decode to the same audio",
 "Wrapping a stream's packets or access units in an MP4 file, however the samples are grouped into chunks, sized or offset and wherever the boxes are placed, makes the player write exactly the samples it writes for the raw stream, and the written WAV header describes those samples (channels, rate, word length, data length).",
 ["inputs","configurations"],"every valid stream and every legal sample/chunk table layout and box order",
 SM+"one MP4 file with one table layout is read.",
 ["test/mp4/impeghd_mp4_file.c","test/mp4/impeghd_mp4_parser.c","test/mp4/impeghd_mp4_demux.c","test/impeghd_main.c"],
 [("sample-to-chunk walk","test/mp4/impeghd_mp4_parser.c"),("WAV header writer","test/impeghd_main.c")],["output WAV file"])
p("C11","PCM word lengths agree and overload saturates",
 "For every stream the 16-, 24- and 32-bit outputs are the same signal to within one step of the shorter word length, interleaved in the same order, and a signal beyond full scale is clipped to the extreme code of the same sign, never wrapped.",
 ["inputs","configurations"],"every stream level from silence to heavy overload, every channel count and every supported word length",
 "The tests use 16-bit output and a signal that never overloads.",
 ["decoder/ia_core_coder_decode_main.c","decoder/impeghd_peak_limiter.c"],
 [("float to PCM conversion with saturation","decoder/ia_core_coder_decode_main.c")],["PCM stream"])
p("C12","Frequency-domain decoding matches an independent reference",
 "For every sequence of frequency-domain coded frames - any spectrum, scale factors, global gain, window sequence and shape, grouping, band limit, mid/side or complex-prediction stereo, temporal noise shaping, frequency-domain prediction and noise filling - the decoded samples equal those of the published decoding process within a small fixed tolerance.",
 ["inputs","histories"],"every sequence of frequency-domain frames over every supported sampling rate and window-sequence history",
 SM+"a single tone with one tool setting is decoded.",
 ["decoder/ia_core_coder_arith_dec.c","decoder/ia_core_coder_ext_ch_ele.c","decoder/ia_core_coder_imdct.c","decoder/ia_core_coder_windowing.c","decoder/ia_core_coder_tns.c","decoder/ia_core_coder_spectrum_dec.c"],
 [("arithmetic decoding with adaptive contexts","decoder/ia_core_coder_arith_dec.c"),("inverse transform, windowing and overlap-add","decoder/ia_core_coder_imdct.c")],["PCM stream"])
p("C13","Every coding tool reproduces its reference waveforms",
 "For the reference corpus of streams exercising each coding and rendering tool (frequency-domain tools, linear-prediction modes, long-term postfilter, gap filling, stereo prediction, multichannel tool, downmix, objects, HOA, dynamic range control, binaural and resampling), the decoded waveform stays at its recorded reference within rounding tolerance in every frame and channel.",
 ["inputs","configurations","histories"],"every stream of the reference corpus, each with several playback configurations",
 "The tests compare one mono sine wave; almost no tool is reached.",
 ["decoder/ia_core_coder_igf_dec.c","decoder/ia_core_coder_lpc_dec.c","decoder/ia_core_coder_ltpf.c","decoder/impeghd_hoa_decoder.c","decoder/impd_drc_process.c","decoder/impeghd_multichannel.c"],
 [("the normative decoding process","decoder/*")],["PCM stream"])
p("C14","Each channel of a layout plays from its own loudspeaker",
 "For every channel layout the profile supports played on the same layout, a signal coded in one channel appears at that loudspeaker's output position only, at its coded level, and the reported loudspeaker count, layout index, azimuths, elevations and LFE flags are those of the standard layout. Coding the same channels with different grouping into single, pair and LFE elements gives the same output.",
 ["inputs","configurations"],"every layout and every assignment of channels to elements",
 SM+"only one channel exists.",
 ["decoder/impeghd_cicp_2_geometry.c","decoder/impeghd_cicp_2_geometry_rom.c","decoder/ia_core_coder_init_config.c","decoder/ia_core_coder_decode_main.c"],
 [("element to output channel map","decoder/ia_core_coder_init_config.c"),("layout tables","decoder/impeghd_cicp_2_geometry_rom.c")],["PCM stream","output configuration"])
p("C15","Format conversion keeps every channel audible, balanced and bounded",
 "When a layout is played on another layout, every input channel is distributed to the outputs with the gains and equaliser its conversion rule prescribes (so none is lost, boosted or misplaced, channels present in both layouts stay at their loudspeaker, and mirroring the input left-right mirrors the output), whatever the other channels carry and at every frame length and rate, and a transmitted downmix matrix is applied with exactly its transmitted gains and equalisers.",
 ["inputs","configurations"],"every pair of input and target layouts, every channel, every transmitted matrix",
 "The tests never convert layouts.",
 ["decoder/impeghd_format_conv_init.c","decoder/impeghd_dmx_mtx.c","decoder/ia_core_coder_decode_main.c"],
 [("conversion rule tables and equalisers","decoder/impeghd_format_conv_init.c"),("downmix matrix parsing","decoder/impeghd_dmx_mtx.c")],["PCM stream"])
p("C16","Objects are rendered where and as loud as their metadata says",
 "An object placed exactly at a loudspeaker plays from that loudspeaker alone; between loudspeakers its power is preserved and only neighbouring loudspeakers play; its gain metadata scales it by exactly that gain; and mirroring its azimuth mirrors the output. Metadata changes take effect in their frame without discontinuity.",
 ["inputs","configurations"],"every object position, gain, spread and target layout",
 "The tests contain no objects.",
 ["decoder/impeghd_oam_dec.c","decoder/impeghd_oam_dec_ld.c","decoder/impeghd_obj_ren_dec.c","decoder/impeghd_obj_ren_vbap.c"],
 [("vector-base amplitude panning over a triangulated layout","decoder/impeghd_obj_ren_vbap.c")],["PCM stream"])
p("C18","Loudness normalisation and dynamic range gains are applied exactly",
 "In a stream that carries a dynamic range (DRC) configuration, when a target loudness is requested, the output is the decoded signal times one gain curve per channel: the loudness gain (target minus the program loudness stated for the selected DRC set, the same in all channels) times the gains transmitted in the gain sequences of the DRC set chosen by the MPEG-D selection rules from the effect request, the target, and the stated loudness and peak records of the scene (and of the set it depends on), with their scaling and offset, interpolated in time between their nodes. Records of groups, presets or albums do not influence the scene, and without a target loudness the signal is unchanged.",
 ["inputs","configurations"],"every program loudness, target loudness, effect request, gain sequence and layout",
 "The tests request no loudness target and carry no loudness metadata.",
 ["decoder/impd_drc_process.c","decoder/impd_drc_gain_dec.c","decoder/impd_drc_selection_process.c","decoder/impd_drc_selection_process_drcset_selection.c","decoder/impd_drc_loudness_control.c"],
 [("DRC set selection and gain interpolation","decoder/impd_drc_selection_process_drcset_selection.c")],["PCM stream"])
p("C19","The peak limiter bounds the output and is otherwise transparent",
 "Where the limiter is in use, no output sample exceeds its threshold however loud the decoded signal is, all channels are scaled together, and a signal below the threshold passes unchanged apart from a fixed delay. The gain it applies follows its documented look-ahead attack and release law, sample by sample.",
 ["inputs","configurations"],"every signal and channel count at limiter-active settings",
 "The test signal never comes near the threshold.",
 ["decoder/impeghd_peak_limiter.c","decoder/ia_core_coder_decode_main.c"],
 [("look-ahead gain computation","decoder/impeghd_peak_limiter.c")],["PCM stream"])
p("C20","Resampled output has the exact length, pitch and level",
 "For every supported input and output sampling-rate pair the number of output samples is the exact rational multiple of the input samples over the stream, a tone keeps its frequency and level with no audible images, and for an unsupported pair the stream plays unresampled at its own rate, which is what is reported.",
 ["inputs","configurations"],"every sampling-rate pair, tone frequency and channel count",
 "The tests never resample.",
 ["decoder/impeghd_resampler.c","decoder/impeghd_api.c"],
 [("polyphase resampler","decoder/impeghd_resampler.c")],["PCM stream"])
p("C21","Allocation failures are reported and nothing leaks",
 "If any single memory request fails, creation returns the allocation error without crashing, and after delete every block obtained from the caller's allocator has been returned exactly once; the decoder never uses memory outside the size and alignment it asked for.",
 ["fault_sequences","configurations"],"every allocation, at every failing position, in every configuration; every point of the stream at which delete is called",
 "The tests never fail an allocation.",
 ["decoder/impeghd_api.c"],[("allocation result checks and the table of blocks freed at delete","decoder/impeghd_api.c")],["allocator call log"])
p("C22","Presets and user requests change exactly the groups they name, within limits",
 "In a scene of channel-based groups (no switch groups), the chosen preset - the caller's, or the one named by the user's element interaction data - silences exactly the groups its conditions switch off and plays those they switch on; a group without a condition follows the user's request where the scene permits switching and its default state otherwise; without a preset every group follows its default state. A gain requested by the user or set by the preset scales exactly the channels of the group it is for, reached by a linear ramp over the first frame, only if the scene permits gain changes (and, for the user's gain, the preset does not disable them); a gain outside the group's limits is refused or limited. All other channels are bit for bit within conversion accuracy what they are without a scene description, whatever the order of groups, members and requests.",
 ["inputs","configurations","histories"],"every scene description with up to 16 groups of any members, every preset and every request",
 "The tests carry no scene description.",
 ["decoder/impeghd_ele_interaction_intrfc.c","decoder/impeghd_metadata_preprocessor.c","decoder/impeghd_mhas_parse.c","decoder/ia_core_coder_decode_main.c"],
 [("request parsing","decoder/impeghd_ele_interaction_intrfc.c"),("states and gains of groups","decoder/impeghd_metadata_preprocessor.c"),("switching of channels","decoder/ia_core_coder_decode_main.c")],["PCM stream"])
p("C23","Unsupported or inconsistent configurations are refused",
 "A stream whose configuration is outside the decoder's profile, level, channel-count, sampling-rate, frame-length, layout or group-type limits is rejected with a fatal error and never produces audio, and every configuration inside those limits is accepted with the channel count and rate it declares.",
 ["inputs","configurations"],"every value of every configuration field, singly and in pairs",
 SM+"one accepted configuration is seen and no refused one.",
 ["decoder/ia_core_coder_init_config.c","decoder/ia_core_coder_headerdecode.c","decoder/impeghd_api.c"],
 [("profile/level and range checks while parsing the configuration","decoder/ia_core_coder_init_config.c")],["return codes","output configuration"])
p("C24","A configuration change behaves like a fresh start",
 "When a new configuration arrives inside a stream, the audio from that point on is what a newly created decoder produces for the remainder of the stream (after the change's fixed transition), with the new channel count, rate and layout reported, whatever was decoded before.",
 ["histories","inputs"],"every pair and sequence of configurations and every change point",
 SM+"no stream changes configuration.",
 ["decoder/ia_core_coder_decode_main.c","decoder/impeghd_api.c","decoder/ia_core_coder_headerdecode.c"],
 [("configuration comparison and re-initialisation","decoder/ia_core_coder_decode_main.c")],["PCM stream","output configuration"])
p("C25","Damage stays local: decoding recovers at the next independent frame",
 "After lost or damaged frames, or when decoding starts at any independently decodable frame, the output becomes identical to undisturbed decoding within a fixed small number of frames, and frames before the damage are unaffected (noise-filled bands keep their running random signs, and the recursive parts - long-term post-filter, limiter release, level smoothing of a downmix - converge instead).",
 ["fault_sequences","inputs","histories"],"every loss or corruption position and length, every start frame",
 SM+"no frame is ever lost or damaged.",
 ["decoder/ia_core_coder_decode_main.c","decoder/ia_core_coder_process.c"],
 [("independent-frame state reset","decoder/ia_core_coder_arith_dec.c")],["PCM stream"])
p("C17","Every coding of an HOA scene is rendered as the same scene, in place",
 "A higher-order ambisonics scene gives, at every loudspeaker, one fixed matrix times its coefficient signals, whatever coding carries it (directional, vector-based with every quantiser and codebook, additional ambience, spatial prediction, coded gain changes, interpolation and transitions between them, near-field compensation). The matrix belongs to the loudspeaker layout alone (not to sampling rate or coding), leaves the LFE silent, mirrors with the scene, keeps a plane wave's level and plays it from its direction, and is the transmitted rendering matrix where one is sent for the layout.",
 ["inputs","configurations","histories"],"every HOA configuration, frame content and sequence of codings, every layout and rate",
 "The tests contain no HOA scene.",
 ["decoder/impeghd_hoa_spatial_decoder.c","decoder/impeghd_hoa_frame.c","decoder/impeghd_hoa_render_mtrx.c","decoder/impeghd_hoa_renderer.c","decoder/impeghd_hoa_matrix.c"],
 [("frame parsing","decoder/impeghd_hoa_frame.c"),("renderer matrix generation","decoder/impeghd_hoa_render_mtrx.c"),("spatial decoding","decoder/impeghd_hoa_spatial_decoder.c")],["PCM stream"])
p("C26","Binaural output is the loudspeaker scene convolved with the supplied responses",
 "With binaural impulse responses supplied, the output has two channels, and each ear's signal is the sum over all loudspeaker channels of the (possibly converted or object-rendered) scene of that channel convolved with the direct response supplied for the loudspeaker at the same position (an LFE without its own pair uses the LFE of the set), plus the weighted sum of all channels convolved with the diffuse response blocks one after the other, each response limited to its stated share of the spectrum, delayed by one processing block and scaled by the loudness normalisation - for every layout, rate, response length and set. No rate conversion is applied or announced, and after a configuration change the same holds for the new scene. Responses taken at another rate, or without one for every loudspeaker, are refused.",
 ["inputs","configurations","histories"],"every scene, layout, response set and configuration sequence",
 "The tests never render binaurally.",
 ["decoder/impeghd_binaural.c","decoder/impeghd_binaural_renderer.c","decoder/impeghd_ifft.c","decoder/ia_core_coder_decode_main.c","decoder/impeghd_api.c"],
 [("response parsing","decoder/impeghd_binaural.c"),("partitioned convolution","decoder/impeghd_binaural_renderer.c"),("feeding and output","decoder/ia_core_coder_decode_main.c")],["PCM stream","output configuration"])
p("C27","Jointly coded channels are separated exactly as coded",
 "For every stream using the multichannel coding tool - any set of channels with any number of channel pairs per frame, prediction or rotation, whole spectrum or band by band with masks, differences against the previous frame or the previous band, kept or new pair lists, long and short windows with any grouping, stereo filling from the previous frame, and any history of these - the decoded channels equal those of the published joint-channel process applied to the transmitted spectra, and no legal frame is refused.",
 ["inputs","histories"],"every sequence of multichannel-coded frames over every layout, element split and sampling rate",
 SM+"the tests hold one mono stream, so the tool never runs.",
 ["decoder/impeghd_multichannel.c","decoder/ia_core_coder_process.c"],
 [("side information, prediction, rotation and filling","decoder/impeghd_multichannel.c"),("order of the joint processing and the memory of the previous frame","decoder/ia_core_coder_process.c")],["PCM stream"])
P.sort(key=lambda x:x["id"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
