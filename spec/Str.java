import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of module Str. */
public class Str {
    private static String s(Value v) { return ((StringValue) v).val.toString(); }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value tuple(String[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = new StringValue(a[i]);
        return new TupleValue(r);
    }
    public static Value SLower(Value a) { return new StringValue(s(a).toLowerCase(java.util.Locale.ROOT)); }
    public static Value SStrip(Value a) { return new StringValue(s(a).strip()); }
    public static Value SSplit(Value a) {
        String t = s(a).strip();
        return t.isEmpty() ? tuple(new String[0]) : tuple(t.split("\\s+"));
    }
    public static Value SSplitOn(Value a, Value c) { return tuple(s(a).split(java.util.regex.Pattern.quote(s(c)), -1)); }
    public static Value SBefore(Value a, Value c) { String t = s(a); int i = t.indexOf(s(c)); return new StringValue(i < 0 ? t : t.substring(0, i)); }
    public static Value SStarts(Value a, Value b) { return bool(s(a).startsWith(s(b))); }
    public static Value SEnds(Value a, Value b) { return bool(s(a).endsWith(s(b))); }
    public static Value SHas(Value a, Value b) { return bool(s(a).contains(s(b))); }
    public static Value SLen(Value a) { return IntValue.gen(s(a).length()); }
    public static Value SChar(Value a, Value i) { String t = s(a); int k = ((IntValue) i).val; return new StringValue(k < 1 || k > t.length() ? "" : t.substring(k - 1, k)); }
    public static Value SOnly(Value a, Value c) { String t = s(a); char x = s(c).charAt(0); if (t.isEmpty()) return BoolValue.ValFalse; for (int i = 0; i < t.length(); i++) if (t.charAt(i) != x) return BoolValue.ValFalse; return BoolValue.ValTrue; }
    public static Value SAlnum(Value a) { return bool(s(a).matches("[A-Za-z0-9]")); }
    public static Value SIsDec(Value a) { return bool(s(a).matches("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?")); }
    public static Value SIsInt(Value a) { return bool(s(a).matches("[+-]?[0-9]+")); }
    public static Value SOdd(Value a) { return bool(s(a).matches("(?i)[+-]?(inf|infinity|nan|[0-9.e+-]*[0-9]_[0-9][0-9_.e+-]*)") || s(a).chars().anyMatch(x -> x > 126)); }
    public static Value SInt(Value a) { String t = s(a); return IntValue.gen(Integer.parseInt(t.startsWith("+") ? t.substring(1) : t)); }
    public static Value SErase(Value a, Value b) { String t = s(a), c = s(b); StringBuilder r = new StringBuilder(); for (int i = 0; i < t.length(); i++) if (c.indexOf(t.charAt(i)) < 0) r.append(t.charAt(i)); return new StringValue(r.toString()); }
    public static Value SCut(Value a, Value b) { String t = s(a), c = s(b); return new StringValue(t.endsWith(c) ? t.substring(0, t.length() - c.length()) : t); }
}
