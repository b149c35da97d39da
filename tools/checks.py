NA={}
HOOKS=None
c("C08","exploration",EXH,"every memory layout x padding x content up to the bound, on the real metrics")
c("C09","exploration",EXH,"all 8-bit value pairs, all small sizes, every single-sample difference")
c("C11","exploration",EXH,"all small plane sizes and tall planes; exact integer reference")
c("C12","exploration",EXH,"all small plane sizes; exact integer reference")
c("C13","exploration",EXH,"all small plane sizes and all DCT basis pairs; reference transform")
c("C14","exploration",EXH,"colour grid, sizes and formats; f64 reference; accuracy 0.004 + 0.2 %")
c("C15","exploration",EXH,"vector against scalar path over widths, lanes, values, formats")
c("C07","exploration",EXH,"all ordered pairs of formats, frame and video level")
c("C10","exploration",EXH,"all clips over an alphabet of frame pairs up to length 4 (5 thorough)")
c("C16","exploration",EXH,"all pairs of content patterns x sizes x formats, frame and video level")
c("C17","exploration",EXH,"all pairs of content patterns x sizes x formats in both orders, frame and video level")
c("C18","exploration",EXH,"all combinations of plane contents; one recorded finding (PSNR-HVS average)")
c("C20","exploration",EXH,"all picture sizes up to the bound x all y4m colour spaces x header variants")
c("C21","exploration",EXH,"all widths x strides x layouts x sitings x depths, impulses, all short rows over 4 levels")
c("C22","fault_enumeration","exhaustive fault enumeration: every truncation point and single-byte corruption","on the real decoder, against a reference reader")
c("C23","model_checking","explicit exploration of all read histories, each replayed on the real decoders against the position model","y4m and user decoders: depth 5 (7 thorough) over 6 operations; ffmpeg decoder: depth 4 (5)")
c("C27","exploration","exhaustive enumeration of arrival splits through a controlled pipe","each piece is delivered only once the previous one was read")

SCH="exhaustive schedule exploration of the real code under a controlled scheduler (state hashing), stand-ins validated against the real rayon/crossbeam"
c("C01","model_checking",SCH,"pools 1-4 x clip lengths x call site x metrics; reference: one-pair clips in fresh processes")
c("C02","model_checking",SCH,"every fault position x kind x pool x call site; deadlock and livelock detection")
c("C03","model_checking",SCH,"all pairs of lengths 0-4 x limits x pools x call sites, all metrics")
c("C04","model_checking",SCH,"every fault position x kind x pool x call site, all metrics")
c("C05","model_checking",SCH,"callback monitor in every schedule")
c("C06","model_checking",SCH,"live frame counter (allocator) in every schedule")
c("C19","model_checking",SCH,"two comparisons at once in 5 arrangements; all histories of 2 (3) comparisons over an alphabet")

c("C24","exploration","exhaustive enumeration of tool configurations (both builds), each run of the real tool compared with the library","all output subsets x quiet x metric x lists of files; terminal, names, buffer sizes")
c("C25","fault_enumeration","exhaustive fault enumeration on the real tool: every input fault at every position, a write failure after every byte","both builds; RLIMIT_FSIZE, /dev/full, closed pipe")
c("C26","exploration","exhaustive enumeration of streams (codec x container x format x GOP x B x length), read histories, truncations and read errors on the real decoder","against an independent libavcodec loop and, for lossless codecs, the source")
c("C28","exploration","exhaustive enumeration of shapes, inputs and corruptions, every memory access of each run checked (AddressSanitizer)","all shapes plus the enumerations of 11 other checks")
