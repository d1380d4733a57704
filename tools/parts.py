"""Which specification, driver and generator decide which property."""
import gens as G

class Part:
    def __init__(self, spec, driver, gen=None, lib=False, files=None, mc=None, batch=40, wrap=None, cxx=(), env=None,
                 mc_timeout=600, heap="3g", shards=1, consts="", drv_timeout=300, workers=1, nocfg=False, known=None):
        self.__dict__.update(locals())
    def cfgs(self, tier):
        import os
        from lib import V
        m = self.mc or self.spec
        if self.nocfg: return []
        t = "MC_%s.thorough.cfg" % m
        if tier == "thorough" and os.path.exists(os.path.join(V, "spec", t)): return [t]
        return ["MC_%s.cfg" % m]

PARTS = {
 "C01": [Part("Quoting", "quoting", G.quoting, files=["flut/string_tools.cpp"], lib=True)],
 "C02": [Part("CharStream", "char_stream", G.char_stream, files=["flut/char_stream.cpp", "flut/char_stream.hpp", "flut/string_tools.cpp"], lib=True)],
 "C08": [Part("FlatMap", "flat_map", G.flat_map, files=["flut/flat_map.hpp"], lib=True)],
 "C03": [Part("StrTools", "str_tools", G.str_tools, files=["flut/string_tools.cpp", "flut/string_tools.hpp", "flut/system_tools.cpp"], lib=True)],
 "C04": [Part("Glob", "glob", G.glob, files=["flut/string_tools.cpp", "flut/pattern_matcher.hpp"], lib=True)],
 "C05": [Part("NumText", "num_text", G.num_text, files=["flut/string_tools.hpp", "flut/system/string_cast.hpp", "flut/char_stream.hpp"], lib=True)],
 "C06": [Part("Path", "path", G.path, files=["flut/system/path.cpp", "flut/system/path.hpp"], lib=True)],
 "C07": [Part("Hash", "hash", G.hash_, files=["flut/hash.hpp"])],
 "C09": [Part("SortedVector", "sorted_vector", G.sorted_vector, files=["flut/sorted_vector.hpp"])],
 "C10": [Part("CircDeque", "circ_deque", G.circ_deque, files=["flut/circular_deque.hpp"], lib=True)],
 "C14": [Part("DynArray", "dyn_array", G.dyn_array, files=["flut/dynarray.hpp"], lib=True)],
 "C15": [Part("FlagSet", "flag_set", G.flag_set, files=["flut/flag_set.hpp"])],
 "C11": [Part("FrameBuffer", "frame_buffer", G.frame_buffer, files=["flut/buffer/circular_frame_buffer.hpp", "flut/buffer/data_header.hpp"], lib=True)],
 "C12": [Part("Storage", "storage", G.storage, files=["flut/storage.hpp", "flut/buffer/data_header.hpp"], lib=True)],
 "C13": [Part("Table", "table", G.table, files=["flut/table.hpp", "flut/buffer/data_header.hpp"], lib=True)],
 "C16": [Part("Memoize", "memoize", G.memoize, files=["flut/memoize.hpp"])],
 "C17": [Part("Factory", "factory", G.factory, files=["flut/factory.hpp", "flut/system_tools.cpp", "flut/flat_map.hpp"], lib=True)],
 "C18": [Part("Dictionary", "dictionary", G.dictionary, files=["flut/dictionary.hpp"], lib=True)],
 "C19": [Part("PropNode", "prop_node", G.prop_node, files=["flut/prop_node.hpp", "flut/prop_node.cpp"], lib=True)],
 "C20": [Part("PropAccess", "prop_access", G.prop_access, files=["flut/prop_node.hpp", "flut/prop_node_tools.cpp"], lib=True)],
 "C21": [Part("PropFile", "prop_file", G.prop_file, files=["flut/prop_node_tools.cpp", "flut/string_tools.cpp", "flut/char_stream.cpp"], lib=True)],
 "C22": [Part("PropParse", "prop_parse", G.prop_parse, files=["flut/prop_node_tools.cpp", "flut/char_stream.cpp", "flut/char_stream.hpp"], lib=True)],
 "C23": [Part("Ini", "ini", G.ini, files=["flut/prop_node_tools.cpp", "flut/string_tools.cpp", "flut/char_stream.cpp"], lib=True)],
 "C24": [Part("Xml", "xml", G.xml, files=["flut/prop_node_tools.cpp"], lib=True)],
 "C25": [Part("Include", "include", G.include, files=["flut/prop_node_tools.cpp"], lib=True)],
 "C26": [Part("PropTyped", "prop_typed", G.prop_typed, files=["flut/prop_node.hpp", "flut/prop_node_tools.hpp", "flut/system/string_cast.hpp", "flut/math/vec3_type.hpp", "flut/math/quat_type.hpp", "flut/math/transform.hpp", "flut/math/bounds.hpp"], lib=True)],
 "C27": [Part("Log", "log", G.log, files=["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp"], lib=True)],
 "C28": [Part("TestFw", "test_fw", G.test_fw, files=["flut/system/test_framework.cpp"], lib=True, known=("reset-after-failure", "ResetKnown", G.test_fw_known))],
 "C29": [Part("UniqueFolder", "unique_folder", G.unique_folder, files=["flut/filesystem.cpp"], lib=True)],
 "C30": [Part("FileOps", "file_ops", G.file_ops, files=["flut/filesystem.cpp", "flut/system_tools.cpp"], lib=True)],
 "C31": [Part("Stopwatch", "stopwatch", G.stopwatch, files=["flut/timer.hpp", "flut/stopwatch.cpp", "flut/stopwatch.hpp"], lib=True)],
 "C32": [Part("Profiler", "profiler", G.profiler, files=["flut/system/profiler.cpp", "flut/system/profiler.hpp"], lib=True)],
 "C33": [Part("Random", "random", G.random_, files=["flut/math/random.hpp"], lib=True)],
 "C34": [Part("Version", "version", G.version, files=["flut/system/version.hpp", "flut/string_tools.cpp"], lib=True)],
 "C35": [Part("Filters", "filters", G.filters, files=["flut/filter.hpp", "flut/math/delta.hpp", "flut/math/average.hpp", "flut/math/delayer.hpp"])],
 "C36": [Part("Rotation", "rotation", G.rotation, files=["flut/math/quat.hpp", "flut/math/transform.hpp", "flut/math/vec3.hpp", "flut/math/mat33.hpp", "flut/math/quat_type.hpp"], lib=True)],
 "C37": [Part("Interp", "interp", G.interp, files=["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp", "flut/math/polynomial.hpp", "flut/math/linear_regression.hpp", "flut/buffer/data_algorithms.hpp", "flut/math/catmull_rom.hpp"], lib=True)],
 "C38": [Part("Scalar", "scalar", G.scalar, files=["flut/math/math.hpp", "flut/math/bounds.hpp", "flut/math/bounding_box.hpp", "flut/math/irange.hpp", "flut/math/angle.hpp"], lib=True)],
 "C39": [Part("Stats", "stats", G.stats, files=["flut/container_tools.hpp"], lib=True)],
 "C40": [Part("Cells", "cells", G.cells, files=["flut/math/optional.hpp", "flut/system/error_code.hpp", "flut/interruptible.cpp"], lib=True)],
 "C41": [Part("DebugStorage", "debug_storage", G.debug_storage, files=["flut/system/debug_storage.cpp", "flut/storage.hpp"], lib=True),
         Part("FuncTable", "func_table", G.func_table, files=["flut/debug_tools.hpp"], lib=True)],
 "C42": [Part("Vec", "vec", G.vec, files=["flut/math/vec3.hpp", "flut/math/vec4.hpp", "flut/math/vec3_type.hpp", "flut/math/vec4_type.hpp"], lib=True)],
 "C43": [Part("Clone", "clone", G.clone, files=["flut/memory_tools.hpp"])],
}
