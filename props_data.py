B = "Bounded symbolic execution: "
P("C01", "Channel values survive a set/get round trip",
  "A value stored in a channel of a sample record and read back from that record is the same value (truncated to the channel's width), with the validity it was stored with and in the byte order the channel declares. Storing one value or array element leaves every other channel, array element and validity flag of the record unchanged.",
  ["inputs", "configurations"], "for every value, validity, previous record content, data type, width, array element and neighbouring channel layout within the bounds",
  "2^64 values times record contents, types, widths, byte orders and array indices; the tests store a handful of values in single channels",
  ["mdflib/src/ichannel.cpp", "mdflib/src/cn4block.cpp", "mdflib/src/cg4block.cpp", "mdflib/src/littlebuffer.h", "mdflib/src/bigbuffer.h"],
  [("value encoding", "mdflib/src/ichannel.cpp SetUnsignedValue*/SetSignedValue*/SetFloat*/SetTextValue/SetByteArray"),
   ("variable length storage", "mdflib/src/cn4block.cpp SetTextValue/SetByteArray/GetTextValue/GetByteArrayValue"),
   ("record layout", "mdflib/src/cg4block.cpp PrepareForWriting")],
  B + "integers and floats of 1-8 bytes, arrays of up to 3 elements, texts/bytes up to 4, two samples in a row; all values and prior record contents symbolic")
P("C02", "Bit fields decode to the specified value",
  "A channel located at any byte and bit offset with any bit count reads exactly the bits of the record that its description denotes, in Intel or Motorola order, sign extended for signed channels and as the IEEE value for 16, 32 and 64 bit floats. A field that does not fit in the record is reported invalid.",
  ["inputs", "configurations"], "for every record content, bit offset 0-7, bit count 1-64, byte order, signedness and float width",
  "the decoding has 8 x 64 x 2 x 2 layouts and 2^72 record contents; tests use byte aligned fields and a few values",
  ["mdflib/src/ichannel.cpp", "mdflib/src/dbchelper.cpp", "mdflib/src/half.hpp"],
  [("bit extraction", "mdflib/src/dbchelper.cpp RawToUnsigned/RawToSigned/RawToFloat/RawToDouble/RawToHalf"),
   ("range check", "mdflib/src/ichannel.cpp GetUnsignedValue/GetSignedValue/GetFloatValue")],
  B + "all bit counts 1-64 x bit offsets 0-7 x byte orders with fully symbolic record bytes, byte offset up to 2")
P("C03", "Channel access never leaves the record or signal data",
  "Reading or writing a channel value never touches memory outside the sample record or the stored signal data, whatever byte offset, width, array index, variable-length index or stored length is involved. A value that lies outside is reported invalid and nothing is modified.",
  ["inputs", "configurations"], "for every 32 bit byte offset, 64 bit index, stored length, data type and record size within the bounds",
  "out-of-range layouts come from malformed files; the tests only use consistent ones",
  ["mdflib/src/ichannel.cpp", "mdflib/src/cn4block.cpp", "mdflib/src/dbchelper.cpp"],
  [("range checks", "mdflib/src/ichannel.cpp Get*Value/Set*Value"), ("signal data lookup", "mdflib/src/cn4block.cpp GetTextValue/GetByteArrayValue")],
  B + "byte offsets and signal data indices fully symbolic, records up to 12 bytes, signal data up to 9 bytes, every memory access checked")
P("C04", "Each value keeps its own invalidation bit",
  "Every channel, and every array element, that carries an invalidation flag has a bit of its own in the record: setting a value valid or invalid is what reading it back reports, and it never changes the validity of any other value. The record has just enough invalidation bytes for all flagged values.",
  ["inputs", "configurations"], "for every combination of flagged channels and array sizes, prior record content and validity assignment within the bounds",
  "bit allocation depends on all channels together; the tests check single channels",
  ["mdflib/src/cn4block.cpp", "mdflib/src/cg4block.cpp"],
  [("bit allocation", "mdflib/src/cn4block.cpp PrepareForWriting"), ("bit access", "mdflib/src/cn4block.cpp SetValid/GetValid")],
  B + "up to 3 channels (4 thorough) of 1 or 5 elements, all flag subsets, all validity assignments")
P("C05", "Conversions compute the declared physical value",
  "A numeric or text channel value is turned into its engineering value exactly as the conversion rule declares: linear, rational, polynomial, table look-up with or without interpolation, value-range to value, value or range to text, text to value and text to text, with the declared default outside the tables. Writing the conversion to a file, reading it back or copying it gives the same conversion.",
  ["inputs", "configurations"], "for every channel value, parameter and table content within the bounds",
  "tables, boundaries, ordering and defaults multiply with all values; tests convert a few values with one table each",
  ["mdflib/src/ichannelconversion.cpp", "mdflib/src/cc4block.cpp", "mdflib/src/cc3block.cpp"],
  [("conversion rules", "mdflib/src/ichannelconversion.cpp Convert*"), ("text conversions", "mdflib/src/cc4block.cpp ConvertValueToText/ConvertValueRangeToText/ConvertTextToValue/ConvertTextToTranslation"),
   ("storage", "mdflib/src/cc4block.cpp Write/Read/CopyFrom, mdflib/src/cc3block.cpp Write/Read")],
  B + "tables of up to 3 rows, parameters and values symbolic small integers (so every evaluation order is exact), texts up to 2 characters")
P("C06", "A finished measurement reads back exactly as it was recorded",
  "After a measurement is written and finalised, reading the file gives for every channel group exactly the samples that were saved to it, in the order they were saved, each with its own values, validity and time relative to the start of the measurement. This holds for MDF 3, MDF 4 and converter output, with or without compression, for one or several data groups and channel groups, and for several measurements in one file.",
  ["inputs", "configurations", "histories"], "for every sequence of saved samples, assignment to groups, sample value, validity and time within the bounds, in every writer mode",
  "the tests write fixed ramps in single groups; here all values, group interleavings, types, compression and append histories are covered",
  ["mdflib/src/mdfwriter.cpp", "mdflib/src/samplequeue.cpp", "mdflib/src/writer4samplequeue.cpp", "mdflib/src/convertersamplequeue.cpp", "mdflib/src/dg4block.cpp", "mdflib/src/dg3block.cpp", "mdflib/src/mdfreader.cpp"],
  [("sample queueing", "mdflib/src/samplequeue.cpp SaveSample/CleanQueue"), ("MDF4 storage", "mdflib/src/writer4samplequeue.cpp SaveQueue/CleanQueueCompressed"),
   ("reading", "mdflib/src/dg4block.cpp ReadData, mdflib/src/dg3block.cpp ReadData, mdflib/src/channelobserver.h")],
  B + "whole write-then-read through the public interface: up to 3 groups, 3 samples in any group order, 14 value kinds in both byte orders, symbolic values/validity/time, data blocks plain or deflated, up to 2 measurements per file; the worker thread is explored cooperatively here (its interleavings are another property)")
P("C13", "Metadata properties and comments survive storing and reading",
  "Texts, numbers, truth values and attributes set as properties, common properties, lists, names, formulas and block comments are read back from the stored XML exactly as they were set, whatever characters the texts hold. Setting one again replaces it, nothing that was not set appears, and the same holds for descriptive texts of a written MDF 4 file after it is read.",
  ["inputs", "configurations"], "for every text and number within the bounds, each kind of property and comment, and each order of setting",
  "escaping, number formatting and attribute naming must agree between writer and parser for all values; the tests print most comments without comparing them",
  ["mdflib/src/ixmlnode.cpp", "mdflib/src/ixmlnode.h", "mdflib/src/expatxml.cpp", "mdflib/src/imetadata.cpp", "mdflib/src/mdproperty.cpp", "mdflib/src/mdnumber.cpp", "mdflib/src/mdlist.cpp", "mdflib/src/mdvariable.cpp", "mdflib/src/mdformula.cpp", "mdflib/src/mdalternativename.cpp", "mdflib/src/mdcomment.cpp", "mdflib/src/hdcomment.cpp", "mdflib/src/cncomment.cpp", "include/mdf/etag.h"],
  [("XML writing and parsing", "mdflib/src/ixmlnode.cpp Write, mdflib/src/expatxml.cpp"), ("metadata", "mdflib/src/imetadata.cpp InsertETag/FetchETag"), ("comment objects", "mdflib/src/md*.cpp, mdflib/src/*comment.cpp ToXml/FromXml")],
  B + "one text at a time symbolic (every text of 1-2 printable characters, entity look-alikes, every two byte UTF-8 letter; blanks at the ends are trimmed by design), the others fixed texts with XML's reserved characters; integers of up to 8 digits, 16 bit hexadecimal numbers, floating point numbers that are such integers plus some fractions; the expat library is replaced by a model of the XML it is given here, every sampled path being replayed with the real library; names that differ only in case, harmonised objects (units, conversions of ASAM MCD-2 HO) and plain texts beginning with '<' are outside")
P("C07", "Descriptive data written with a measurement reads back unchanged",
  "Header, source, attachment, event, channel hierarchy, channel group and channel attributes set before a measurement are read back from the file with the values they were given, attached to the object they were given to, and references between objects lead to the same objects. Every block of a written MDF 4 file starts on an 8 byte boundary and its stored length and links lie inside the file.",
  ["inputs", "configurations"], "for every attribute value, presence or absence of optional attributes and choice of referenced object within the bounds",
  "attributes and optional references combine freely; the tests set each one alone to a fixed value and several never read them back",
  ["mdflib/src/hd4block.cpp", "mdflib/src/hd3block.cpp", "mdflib/src/ev4block.cpp", "mdflib/src/ch4block.cpp", "mdflib/src/at4block.cpp", "mdflib/src/si4block.cpp", "mdflib/src/cn4block.cpp", "mdflib/src/cn3block.cpp", "mdflib/src/cg4block.cpp", "mdflib/src/mdfblock.cpp"],
  [("block storage", "mdflib/src/*4block.cpp and *3block.cpp Write/Read"), ("links", "mdflib/src/mdfblock.cpp UpdateLink, mdflib/src/hd4block.cpp Write/ReadEverythingButData")],
  B + "whole write-then-read through the public interface; symbolic numbers and texts of up to 2 characters (names of 1-40 for MDF 3), every subset of optional attributes, up to 2 objects of a kind. Comments and properties kept as XML are C13's")
P("C08", "Reading does not depend on how the data is fragmented",
  "The samples and variable length values read from an MDF 4 data group are the same whether the data is stored in one block, split over a data list at any position, over a chain of data lists or below a header list, and whether each fragment is plain, deflated or transposed and deflated. Sorted and unsorted groups with record identities of any allowed size are all read sample by sample in file order, each record delivered to its own channel group.",
  ["inputs", "configurations"], "for every record content, split position, block kind per fragment, record identity size and record sequence within the bounds",
  "split positions, empty fragments, compression kinds and record identities multiply; the writer of the test suite never produces most of these layouts",
  ["mdflib/src/dg4block.cpp", "mdflib/src/readcache.cpp", "mdflib/src/datalistblock.cpp", "mdflib/src/dl4block.cpp", "mdflib/src/hl4block.cpp", "mdflib/src/dz4block.cpp", "mdflib/src/dt4block.cpp", "mdflib/src/zlibutil.cpp"],
  [("block walk", "mdflib/src/readcache.cpp ParseRecord/GetNextByte/GetNextDgBlock"), ("compression", "mdflib/src/dz4block.cpp CopyDataToFile/CopyDataToBuffer, mdflib/src/zlibutil.cpp Inflate/InvTranspose"),
   ("signal data", "mdflib/src/dg4block.cpp ReadVlsdData/ReadSignalData")],
  B + "raw MDF 4 files built byte by byte: up to 3 records of 3 bytes in up to 3 fragments split at every byte position, each fragment plain/deflated/transposed, possibly empty; record identities of 0, 1, 2, 4 and 8 bytes; the zlib codec is replaced by a stored-data model")
P("C09", "Reading a range of samples gives exactly that range",
  "Reading a range of samples of a data group delivers exactly the samples of the requested numbers, with the same values, validity and variable length contents as when the whole group is read, and leaves all others undelivered. This holds for every first and last number, with several channel groups in the data group, in MDF 3 and MDF 4.",
  ["inputs", "configurations"], "for every first and last sample number, record sequence and record content within the bounds",
  "ranges, group interleavings and variable length contents multiply; the tests read a few ranges of one fixed file",
  ["mdflib/src/dg4block.cpp", "mdflib/src/dg3block.cpp", "mdflib/src/dgrange.cpp", "mdflib/src/cgrange.cpp", "mdflib/src/readcache.cpp", "mdflib/src/mdfreader.cpp"],
  [("range bookkeeping", "mdflib/src/dgrange.cpp, mdflib/src/cgrange.cpp"), ("partial parse", "mdflib/src/readcache.cpp ParseRangeRecord, mdflib/src/dg3block.cpp ReadRangeData")],
  B + "raw MDF 4 files and written MDF 3 files with up to 2 channel groups and up to 4 records; first and last sample number symbolic")
P("C10", "Logged bus messages read back with all their members",
  "A CAN, LIN, Ethernet, MOST or FlexRay message saved through the bus logging interface is read back with every member it was given that its message group stores: identifiers, flags, lengths, checksums, error details, data bytes and time. The message groups created for the bus describe exactly what is stored, with any storage type, with all or only the mandatory members, and with or without compression.",
  ["inputs", "configurations"], "for every message content within the bounds, each message type, storage type and writer kind",
  "each member sits at its own bit position in two places (packing and channel description); tests write counters and never compare most members",
  ["mdflib/src/canmessage.cpp", "mdflib/src/canbusobserver.cpp", "mdflib/src/canconfigadapter.cpp", "mdflib/src/linmessage.cpp", "mdflib/src/linconfigadapter.cpp", "mdflib/src/ethmessage.cpp", "mdflib/src/ethconfigadapter.cpp", "mdflib/src/mostmessage.cpp", "mdflib/src/mostconfigadapter.cpp", "mdflib/src/flexraymessage.cpp", "mdflib/src/flexrayconfigadapter.cpp", "mdflib/src/iconfigadapter.cpp"],
  [("message packing", "mdflib/src/canmessage.cpp, linmessage.cpp, ethmessage.cpp, mostmessage.cpp, flexraymessage.cpp ToRaw"), ("channel description", "mdflib/src/*configadapter.cpp"), ("CAN message observer", "mdflib/src/canbusobserver.cpp")],
  B + "whole write-then-read through the public interface, two messages of one type (plus interleaved data frames), all members symbolic within their declared width, data of 0 to 12 bytes not longer than the configured maximum, MLSD/VLSD/fixed storage, all or mandatory members, basic or bus-logger writer, plain or deflated")
P("C11", "Dates and times convert between text, CANopen and nanoseconds without loss",
  "An ISO 8601 date and time in extended or basic format, with any number of fraction digits up to nine and with or without a time zone offset, is understood as the instant it denotes, and an instant is printed as the date, time or date-and-time text that denotes it, to the millisecond. CANopen date and CANopen time values convert to the instant they denote, and an instant converts to the CANopen value that denotes it, to the millisecond.",
  ["inputs"], "for every date, time of day, fraction, zone offset and text format within the bounds",
  "calendar rules, fraction lengths, zone signs and formats multiply; the tests convert a handful of instants",
  ["mdflib/src/timestamp.cpp", "mdflib/src/mdfhelper.cpp"],
  [("text to time", "mdflib/src/timestamp.cpp FromIsoDateTime"), ("time to text", "mdflib/src/timestamp.cpp ToIsoDate/ToIsoTime/ToIsoDateTime"),
   ("CANopen", "mdflib/src/mdfhelper.cpp NsToCanOpenDateArray/NsToCanOpenTimeArray/CanOpenDateArrayToNs/CanOpenTimeArrayToNs")],
  B + "all digits symbolic for years 1970-2400, every time of day, 0-9 fraction digits, zones of +-14:59 in four notations; printing for 8 days with all seconds and nanoseconds of three hours of the day each; CANopen values with all members symbolic, and back for 6-7 days; local time is UTC in the model")
P("C12", "Channel texts are delivered as UTF-8 whatever their stored encoding",
  "A text channel stored as Latin-1, UTF-8, UTF-16 little endian or UTF-16 big endian is delivered as the UTF-8 form of the stored text, ending at its terminator if it has one, both as channel value and as engineering value. This holds for texts in the record, in signal data and in a variable length group, and the conversions between narrow and wide texts are inverse to each other for every Unicode character.",
  ["inputs", "configurations"], "for every text content, encoding and storage within the bounds",
  "character ranges, surrogates, terminators and three storage places multiply; the tests use ASCII texts",
  ["mdflib/src/ichannel.cpp", "mdflib/src/cn4block.cpp", "mdflib/src/mdfhelper.cpp", "mdflib/src/cutf.cpp"],
  [("decoding", "mdflib/src/cn4block.cpp GetTextValue, mdflib/src/ichannel.cpp GetTextValue"), ("transcoding", "mdflib/src/cutf.cpp cutf_32to8/cutf_8to32, mdflib/src/mdfhelper.cpp Latin1ToUtf8")],
  B + "raw MDF 4 files with texts of 1-6 bytes or 1-3 UTF-16 units, all contents symbolic (contents that are no valid UTF-16 are only required not to fault); wide texts of 1-3 characters out of all Unicode characters. Converting on the write side is not claimed")
P("C14", "Saving samples and storing them in the background never disturb each other",
  "While a measurement runs, a background thread stores the queued samples whenever it likes and one or more application threads save samples: whatever the order in which their steps interleave, every saved sample is stored exactly once, with its own values, in the order of saving within its thread. No memory is used by two threads at once without synchronisation, and stopping and finalising always come to an end.",
  ["schedules", "inputs", "configurations"], "for every interleaving at synchronisation operations with up to 3 preemptions and one expired wait, every sample value, and each kind of writer and save operation",
  "the background thread wakes every ten seconds, so the tests, which run for milliseconds, practically never let it store during a measurement",
  ["mdflib/src/mdfwriter.cpp", "mdflib/src/mdf3writer.cpp", "mdflib/src/mdf4writer.cpp", "mdflib/src/mdfconverter.cpp", "mdflib/src/mdfbuslogger.cpp", "mdflib/src/samplequeue.cpp", "mdflib/src/writer4samplequeue.cpp", "mdflib/src/convertersamplequeue.cpp", "mdflib/src/writecache.cpp"],
  [("background thread", "mdflib/src/writecache.cpp WorkThread/StopWorkThread"), ("sample queue", "mdflib/src/writecache.cpp SaveSample, mdflib/src/samplequeue.cpp"),
   ("storing", "mdflib/src/writer4samplequeue.cpp SaveQueue/CleanQueueCompressed, mdflib/src/samplequeue.cpp SaveQueue, mdflib/src/convertersamplequeue.cpp")],
  B + "write through the public interface with symbolic scheduling at thread creation, lock release, notification, waits, sleeps and atomic stores, up to 3 preemptions (4 thorough) and 1 expired wait; 2-3 samples in up to 2 groups, with variable length data, plain or deflated, two producing threads, all save operations; a vector-clock check reports every pair of unsynchronised conflicting accesses on an explored schedule, and the file is read back and compared")
P("C15", "Samples before the start are kept for the pre-trigger time and no longer",
  "Samples saved after initialising and before the start of a measurement are stored if they are not older than the pre-trigger time before the start, together with the last older sample, and older ones are left out. Samples after the start are all stored, and this holds whatever the background thread does in the meantime, for MDF 3 and MDF 4, with or without compression.",
  ["schedules", "inputs", "histories"], "for every sample time, start time and pre-trigger time within the bounds and every interleaving with the background thread",
  "the rule compares times at a boundary and runs at once in two threads; the tests use one fixed pre-trigger run and do not look at which samples are stored",
  ["mdflib/src/mdfwriter.cpp", "mdflib/src/samplequeue.cpp", "mdflib/src/writecache.cpp"],
  [("trimming", "mdflib/src/samplequeue.cpp TrimQueue"), ("states", "mdflib/src/mdfwriter.cpp InitMeasurement/StartMeasurement/WorkThread")],
  B + "up to 3 samples before the start at symbolic distances (0 to 4.29 s in nanoseconds), or 8 at fixed distances, one sample after it; pre-trigger times of 0, 1 and 2.5 s; start times near the epoch and in 2023; 1-2 data groups; up to 2 preemptions and one expired wait. Trimming at the stop of a measurement is not claimed")
P("C16", "Reading a damaged or cut-off file ends safely",
  "Whatever a damaged or cut-off MDF 3 or MDF 4 file contains, opening it, reading its structure and data, and asking for names, texts and values ends, with a result or with a failure. No exception leaves the reader, and no memory outside its own data is read or written.",
  ["inputs"], "for every value of a damaged field or byte and every length of a cut-off file within the bounds",
  "the reader follows links, counts and sizes taken from the file; every single one of them can be wrong in every way, and the tests read intact files only",
  ["mdflib/src/mdfblock.cpp", "mdflib/src/mdfblock.h", "mdflib/src/datalistblock.cpp", "mdflib/src/readcache.cpp", "mdflib/src/mdfreader.cpp", "mdflib/src/cn4block.cpp", "mdflib/src/cc4block.cpp", "mdflib/src/dz4block.cpp"],
  [("links", "mdflib/src/mdfblock.h ReadLink4List"), ("data", "mdflib/src/readcache.cpp"), ("refusal", "mdflib/src/mdfreader.cpp")],
  B + "hand-made files of 0.6 to 1.2 kB (structure with conversion and source; attachment, event, hierarchy and XML comment; data in several plain or deflated blocks with two record types; signal data in its own block or group; arrays; a conversion of each of ten kinds, damaged in its own block; MDF 3 with one or two groups, conversions, triggers and sample reduction). In each, one byte takes any value (quick: 6 values for the last byte of a word, 31 in the array file), or one 8 byte field (4 byte in MDF 3) takes small values, values near the original or the file length, the position of every block, or huge values; or the file is cut at every length. The changed value stays symbolic until the code branches on it. A path ends within 40 million instructions. Observers are created for groups of up to 8 samples and arrays of up to 8 values only (their memory is proportional to the stored counts). Damage to deflated bytes is decided by zlib and not part of the claim, nor are stored sizes between 64 kB and 4 GB of a deflated block and array dimensions between 256 and 16 million")
