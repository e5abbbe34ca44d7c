import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC implementation of VF.tla: reading traces, writing generated behaviours, reporting rejections. */
public class VF {
    // ---------------------------------------------------------------- JSON -> TLA+ values
    static final class P {
        final String t; int i = 0;
        P(String t) { this.t = t; }
        void ws() { while (i < t.length() && t.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            char c = t.charAt(i);
            if (c == '{') {
                i++; ws();
                ArrayList<UniqueString> k = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>();
                if (t.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
                while (true) {
                    ws(); String name = string(); ws(); i++; Value x = val();
                    k.add(UniqueString.uniqueStringOf(name)); v.add(x);
                    ws(); if (t.charAt(i++) == '}') break;
                }
                return new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
            }
            if (c == '[') {
                i++; ws();
                ArrayList<Value> v = new ArrayList<>();
                if (t.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) { v.add(val()); ws(); if (t.charAt(i++) == ']') break; }
                return new TupleValue(v.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(string());
            if (t.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
            if (t.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
            if (t.startsWith("null", i)) { i += 4; return new StringValue("null"); }
            int b = i;
            while (i < t.length() && "+-.0123456789eE".indexOf(t.charAt(i)) >= 0) i++;
            String n = t.substring(b, i);
            try { return IntValue.gen(Integer.parseInt(n)); } catch (NumberFormatException e) { return new StringValue(n); }
        }
        String string() {
            StringBuilder o = new StringBuilder();
            i++;
            while (true) {
                char c = t.charAt(i++);
                if (c == '"') return o.toString();
                if (c == '\\') {
                    c = t.charAt(i++);
                    switch (c) {
                    case 'n': o.append('\n'); break; case 't': o.append('\t'); break; case 'r': o.append('\r'); break;
                    case 'b': o.append('\b'); break; case 'f': o.append('\f'); break;
                    case 'u': o.append((char) Integer.parseInt(t.substring(i, i + 4), 16)); i += 4; break;
                    default: o.append(c);
                    }
                } else o.append(c);
            }
        }
    }
    static final Map<String, Value> CACHE = new HashMap<>();
    static synchronized Value load(String f, boolean lines) {
        Value v = CACHE.get(f);
        if (v == null) {
            try {
                if (lines) {
                    ArrayList<Value> r = new ArrayList<>();
                    for (String l : Files.readAllLines(Paths.get(f), StandardCharsets.UTF_8)) if (!l.isEmpty()) r.add(new P(l).val());
                    v = new TupleValue(r.toArray(new Value[0]));
                } else
                    v = new P(new String(Files.readAllBytes(Paths.get(f)), StandardCharsets.UTF_8)).val();
            } catch (IOException e) { throw new RuntimeException(e); }
            v.deepNormalize();
            CACHE.put(f, v);
        }
        return v;
    }
    /** the trace named by the property vf.trace, one event per line */
    public static Value LoadTrace(Value dummy) { return load(System.getProperty("vf.trace"), true); }
    /** JSON file (the name is relative to the property vf.data if it is set) */
    public static Value LoadData(Value name) {
        String d = System.getProperty("vf.data", ".");
        return load(d + "/" + ((StringValue) name).val, false);
    }
    public static Value Param(Value name, Value dflt) {
        String p = System.getProperty("vf." + ((StringValue) name).val);
        return p == null ? dflt : IntValue.gen(Integer.parseInt(p));
    }

    // ---------------------------------------------------------------- TLA+ values -> JSON
    static void json(Value v, StringBuilder o) {
        if (v instanceof StringValue) { quote(((StringValue) v).val.toString(), o); return; }
        if (v instanceof IntValue) { o.append(((IntValue) v).val); return; }
        if (v instanceof BoolValue) { o.append(((BoolValue) v).val); return; }
        if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v;
            o.append('{');
            for (int i = 0; i < r.names.length; i++) { if (i > 0) o.append(','); quote(r.names[i].toString(), o); o.append(':'); json(r.values[i], o); }
            o.append('}'); return;
        }
        TupleValue t = (TupleValue) v.toTuple();
        if (t != null) {
            o.append('[');
            for (int i = 0; i < t.elems.length; i++) { if (i > 0) o.append(','); json(t.elems[i], o); }
            o.append(']'); return;
        }
        RecordValue r = (RecordValue) v.toRcd();
        if (r != null && r.names.length > 0) { json(r, o); return; }
        Value s = v.toSetEnum();
        if (s != null) {
            SetEnumValue e = (SetEnumValue) s;
            o.append('[');
            for (int i = 0; i < e.elems.size(); i++) { if (i > 0) o.append(','); json(e.elems.elementAt(i), o); }
            o.append(']'); return;
        }
        quote(v.toString(), o);
    }
    static void quote(String s, StringBuilder o) {
        o.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') o.append('\\').append(c);
            else if (c < ' ') o.append(String.format("\\u%04x", (int) c));
            else o.append(c);
        }
        o.append('"');
    }
    static PrintStream emit, report;
    static PrintStream open(String prop) {
        try { return new PrintStream(new BufferedOutputStream(new FileOutputStream(System.getProperty(prop)), 1 << 16), false, "UTF-8"); }
        catch (IOException e) { throw new RuntimeException(e); }
    }
    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { if (emit != null) emit.flush(); if (report != null) report.flush(); }));
    }
    /** append a behaviour (a sequence of commands) to the file vf.emit */
    public static synchronized Value Emit(Value v) {
        if (emit == null) emit = open("vf.emit");
        StringBuilder o = new StringBuilder();
        json(v, o);
        emit.println(o);
        return BoolValue.ValTrue;
    }
    /** append <<position, information>> to the file vf.report */
    public static synchronized Value Report(Value pos, Value info) {
        if (report == null) report = open("vf.report");
        StringBuilder o = new StringBuilder();
        o.append("{\"l\":").append(((IntValue) pos).val).append(",\"info\":");
        json(info, o);
        report.println(o.append('}'));
        report.flush();
        return BoolValue.ValTrue;
    }
    static final Random RND = new Random(Long.parseLong(System.getProperty("vf.seed", "1")));
    /** random element of 1..n (seeded by vf.seed; single worker) */
    public static synchronized Value Rnd(Value n) { return IntValue.gen(1 + RND.nextInt(((IntValue) n).val)); }
    /** random decimal in [a, b] with d digits after the point */
    public static synchronized Value RndReal(Value a, Value b, Value d) {
        double x = Double.parseDouble(((StringValue) a).val.toString()), y = Double.parseDouble(((StringValue) b).val.toString());
        return new StringValue(new java.math.BigDecimal(x + (y - x) * RND.nextDouble()).setScale(((IntValue) d).val, java.math.RoundingMode.HALF_UP).stripTrailingZeros().toPlainString());
    }
    /** position of the first "reset" event after position l, or one past the end */
    public static Value NextReset(Value l) {
        TupleValue t = (TupleValue) LoadTrace(l);
        int i = ((IntValue) l).val; // 1-based l -> start looking at index l (0-based) = position l+1
        for (; i < t.elems.length; i++) {
            Value op = ((RecordValue) ((RecordValue) t.elems[i]).select(new StringValue("c"))).select(new StringValue("op"));
            if (((StringValue) op).val.toString().equals("reset")) return IntValue.gen(i + 1);
        }
        return IntValue.gen(t.elems.length + 1);
    }
}
