// TLC overrides for module Rep: one line per report on standard output, JSON to a file.
import java.io.*;
import java.nio.charset.StandardCharsets;
import tlc2.value.IValue;
import tlc2.value.impl.*;

public class Rep {
    static Writer out;
    static int bad = 0;
    static synchronized void line(String s) throws IOException {
        if (out == null) {
            String f = System.getenv("REP_OUT");
            out = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f, true), StandardCharsets.UTF_8), 1 << 16);
            Runtime.getRuntime().addShutdownHook(new Thread(() -> { try { out.flush(); } catch (IOException e) { } }));
        }
        out.write(s); out.write('\n');
    }
    static String json(Value v) throws Exception {
        return ((StringValue) tlc2.overrides.Json.toJson((IValue) v)).val.toString();
    }
    // Report(v): append <<v>> as a line "BAD <json>"; always TRUE
    public static Value Report(Value v) throws Exception { line("BAD " + json(v)); return BoolValue.ValTrue; }
    // Emit(v): append v as a line "OUT <json>"; always TRUE
    public static Value Emit(Value v) throws Exception { line("OUT " + json(v)); return BoolValue.ValTrue; }
}
