W.update({
"bound the group, preset and description counts read from MP4 metadata boxes": ("C24", "group, switch-group, preset and description counts of the MP4 metadata boxes indexed fixed tables without limit; stale channel lists survived a flush"),
"bound the multichannel tool's channel range and instance count": ("C01", "multichannel tool payloads addressed channels and instances past the arrays"),
})
W.update({
"read dynamic object metadata as its fixed-value flags say": ("C16", "dynamic object metadata ignored the fixed-value flags of the last intra frame, read a wrong number of spread-depth bits and the priority of objects without one"),
"keep object metadata of each sub-frame in its own slot": ("C16", "with several metadata sub-frames per frame, differential values started from a stale slot and sub-frames without metadata were rendered from the wrong slot"),
"limit and hold object metadata in every sub-frame": ("C16", "only the first sub-frame's values were limited to their legal range; a common uniform spread was written to the first sub-frame's objects"),
})
W.update({
"choose limiter and output rate anew when the configuration changes the sampling rate": ("C24", "after a change of sampling rate the peak limiter and the resampling decision of the old rate were kept (e.g. 48000 to 32000 kept a limiter with the wrong delay)"),
"do not report a requested rate the resampler has no ratio for": ("C20", "8000, 11025 and 12000 Hz streams with a requested output rate were reported at that rate although played unresampled"),
"continue behind the packet of a damaged frame instead of dropping or misreading what follows": ("C25", "a frame that failed to decode consumed a wrong number of bytes, so intact frames behind it were lost or misread"),
"find the configuration that follows unusable packets or a refused configuration": ("C25", "tuning in before a configuration packet, or a first refused configuration, left the decoder unable to find the usable configuration behind it"),
"look for the next configuration after one was refused mid-stream": ("C24", "after a refused configuration mid-stream the decoder kept decoding with partially overwritten state"),
"clear the renderer state used to derive a downmix instead of relying on old scratch content": ("C24", "a layout pair without conversion rules (e.g. input layout 20) got a downmix matrix that depended on what the scratch memory held before"),
"do not route derived downmix gains to the LFE and shift the channels behind it": ("C15", "a downmix derived by panning (input layout 20) put Ls into the LFE and Rs into Ls"),
})
W.update({
"do not look for packets inside a frame whose end is missing": ("C08", "a frame cut off by the end of the input could be left half consumed, and its payload was then read as further packets that produced audio"),
})
W.update({
"use all three peak filters of the top channel equaliser in every band": ("C15", "the equaliser for the top channel (layouts 17, 18 to layouts with an upper layer) lacked its 200 Hz filter and used a wrong one in the first band"),
"mix the top channel to the loudspeakers of a layer, not to a range of loudspeaker numbers that holds the LFE": ("C15", "the top channel (layouts 17, 18) was played on the LFE and not on left and right"),
"return the downmix matrix template that was found": ("C15", "a transmitted downmix matrix coded relative to a template (e.g. layout 12 to 6) was silently ignored"),
"check the equaliser numbers of the input channels, not memory behind them": ("C15", "a transmitted downmix matrix with more equalisers than input channels was accepted or ignored depending on stale memory"),
"make room for the longest downmix gain table that can be signalled": ("C01", "a transmitted downmix matrix with the widest gain range wrote four entries past its gain table"),
"do not read past the end of the downmix gain table": ("C01", "a gain index of a transmitted downmix matrix past the gain table read other memory"),
"limit the run length of the compact downmix matrix to its size": ("C01", "a run of the compact downmix matrix past its end cleared other memory"),
"refuse downmix matrices that do not fit the buffer": ("C01", "a transmitted downmix matrix of more than 256 bytes was copied past its buffer"),
})
W.update({
"apply the loudness gain of the selected DRC set, not that of the last one considered": ("C18", "the loudness gain applied was that of the last DRC set considered, not that of the selected one"),
"keep to the DRC sets that passed the previous selection step": ("C18", "a selection step of the DRC sets took back sets that an earlier step had dropped"),
"do not read another configuration extension as loudness information": ("C18", "a configuration extension in front of the loudness information was parsed as loudness information"),
"refuse more loudness records than there is room for": ("C01", "more than 36 loudness records in the configuration were written past the table"),
"album loudness records do not turn group loudness into that of the scene": ("C18", "album loudness records made the loudness of a group or preset count as that of the scene"),
"room for every loudness record that applies to a DRC set": ("C01", "more than 16 loudness records for one DRC set were written past arrays on the stack"),
"the peak of a group or preset is not that of the whole scene": ("C18", "the peak level stated for a group or preset was used as that of the whole scene"),
"leave room for the instructions that stand for no DRC": ("C01", "31 DRC sets wrote past the table of DRC instructions"),
})
W.update({
"the overlap of a previous LPD frame was read from scratch memory": ("C06", "an LPD frame flagged as first behind another LPD frame mixed scratch memory of an earlier call into the excitation history (decisions and samples from undefined values)"),
"the gap filling levels were examined though none were decoded": ("C06", "with all-zero gap filling, levels that were never decoded were examined"),
})
W.update({
"HOA: keep the data of vector-coded signals per transport channel": ("C17", "with directional or ambient channels before a vector-coded one, the vector of another channel was used"),
"HOA: limit the coded gain of the ambient channels as well": ("C01", "coded gains of the ambient channels indexed past the gain tables"),
"HOA: refuse predicted directions outside the grid": ("C01", "a predicted grid point beyond the number of coefficients wrote past the prediction arrays"),
"HOA: refuse ambient coefficients beyond the order of the scene": ("C01", "an additional ambient coefficient beyond the order of the scene was written past the coefficient buffer"),
"HOA: no prediction from directional signals in frames that carry none": ("C17", "a frame without directional signals was still predicted from those of the frame before"),
"HOA: gain changes of more than 6 steps attenuated instead of amplifying": ("C17", "gain exponents above 6 were applied the wrong way round"),
"HOA rendering: a singular value below the threshold was kept": ("C17", "order-2 scenes on layouts 7, 11, 12 and 16 were rendered lopsidedly (left/right difference up to 95 %)"),
"HOA: signals that change between directional and vector coding lost their cross-fade": ("C17", "a channel that changed from directional to vector coding (or back) was rendered twice or with a jump"),
})
W.update({
"HOA: a combination of vectors that cancel must not become not-a-number": ("C17", "a vector-coded signal whose code vectors cancel turned the whole output into not-a-number"),
"HOA: near-field compensation filters every coefficient by its own order": ("C17", "with near-field compensation every coefficient, even the omnidirectional one, was filtered with the filter for the highest order"),
})
W.update({
"binaural: set the renderer up again after a configuration change": ("C26", "a configuration change with impulse responses supplied dereferenced buffers that were never set up"),
"binaural: short impulse responses made the block length negative": ("C26", "impulse responses shorter than 2048 samples made a copy length negative and corrupted memory"),
"binaural: loudness normalisation was not applied to binaural output": ("C26", "binaural output ignored the requested target loudness"),
"binaural: output is not resampled, so it must not be announced at the requested rate": ("C26", "with another output rate requested, binaural output was announced at that rate but not converted"),
"binaural: spectra of 4096 and more points were computed wrongly": ("C26", "responses of more than 1024 samples: the 4096-, 8192- and 16384-point transforms were wrong, the output was noise"),
"binaural: a single-sample response asked for a transform length that is not supported": ("C26", "a response of one sample came out with the wrong gain"),
"binaural: only the first two channels were rendered after the first frame": ("C26", "scenes of more than two channels lost every channel but the first two after the first frame"),
"binaural: channels of a converted scene were mapped by the number of channels before conversion": ("C26", "a scene converted to a layout with more channels than its own was rendered from the wrong channels"),
"accept stereo filling of rotated channel pairs when the number of bands is even": ("C27", "frames with stereo filling in a band-wise rotated pair were refused (0xFFFF9824) whenever the number of scale factor bands is even"),
"fill multichannel pairs along the window groups of their own channel": ("C27", "stereo filling of short-window pairs used the window groups of the last channel parsed instead of the filled channel's"),
})
W.update({
"audio scene information: preset conditions were checked against the group at the preset's own position": ("C03", "a preset condition naming a group was judged by another group, so legal scene descriptions were refused and illegal ones accepted"),
"local set-up: a layout index or number of loudspeakers beyond the layout was used to index the loudspeaker tables": ("C03", "local set-up data with a layout index or loudspeaker count beyond the tables dereferenced null or read behind them"),
"metadata preprocessing: switch groups naming unknown groups wrote outside the on/off list": ("C03", "a switch group whose member or default names a group that does not exist wrote element -1 of the on/off list"),
"metadata preprocessing: group members beyond the decoded signals were used as signal indices": ("C03", "a group member number above the channel limit silenced or scaled memory behind the channel buffers"),
"audio scene information: groups of 128 members and descriptions of 128 or more characters had negative lengths": ("C03", "lengths of 128 and more were stored in a signed byte, so the rest of the description was read from the wrong place"),
"metadata preprocessing: every scene with objects and presets failed with a divergence error": ("C03", "the number of input objects was never set, so scenes with objects and presets ended in an error, and divergence was looked up at the first object only"),
"metadata preprocessing: objects added for divergence were written beyond the object lists": ("C03", "virtual objects were appended to fixed lists without a limit"),
"presets: a group without a condition took the condition of the group before it": ("C22", "groups a preset does not mention were silenced or kept according to the group before them, or refused"),
})
W.update({
"element interaction: requests were applied to the groups by position instead of by group ID": ("C22", "a request listing the groups in another order than the scene description changed the wrong groups; a group switched off but kept by the preset took a stale gain"),
"element interaction: groups that permit no gain changes were raised by 1 dB": ("C22", "with any request present, channels whose group permits no gain change came out 1 dB louder"),
"element interaction: a gain of -1 dB was not applied": ("C22", "a resulting gain of exactly -1 dB was taken for the mark of object groups and ignored"),
"element interaction: the loudness compensation gain multiplied a gain given in dB": ("C22", "the compensation gain as a linear factor multiplied a gain in dB"),
"element interaction: only the first object of a scene was found, all others ended in an error": ("C22", "any request in a scene whose object groups hold more than the first object ended in an error"),
"element interaction: a group switched on by request stayed silent when its default was off": ("C22", "a permitted request to switch on a group that is off by default had no effect"),
})

W.update({
"keep the multichannel coding set-up when the configuration in force is repeated": ("C09", "a repeated configuration packet in a stream with multichannel coding made every later frame end in 0xffff9024"),
"set up the binaural renderer only once a configuration has been decoded": ("C08", "with BRIR data, a first call that held only the sync packet ended in 0xffff9300; a refused configuration's status was replaced by the renderer's"),
})
