package org.json;

import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.Map;

/** Stand-in for the class of json.org of this name: as of 20080701, getString gives the text of any value. */
public class JSONObject {
  private final LinkedHashMap<String, Object> map = new LinkedHashMap<String, Object>();

  public static final Object NULL = new Object() {
    @Override public boolean equals(Object o) { return o == null || o == this; }
    @Override public int hashCode() { return 0; }
    @Override public String toString() { return "null"; }
  };

  public JSONObject() {}

  public JSONObject(Map<?, ?> m) {
    for (Map.Entry<?, ?> e : m.entrySet()) map.put(e.getKey().toString(), e.getValue());
  }

  public JSONObject(String s) throws JSONException {
    Object o = parse(s);
    if (!(o instanceof JSONObject)) throw new JSONException("A JSONObject text must begin with '{'");
    map.putAll(((JSONObject) o).map);
  }

  public JSONObject put(String k, Object v) throws JSONException {
    if (k == null) throw new JSONException("Null key.");
    if (v == null) map.remove(k); else map.put(k, v);
    return this;
  }
  public JSONObject put(String k, int v) throws JSONException { return put(k, Integer.valueOf(v)); }
  public JSONObject put(String k, long v) throws JSONException { return put(k, Long.valueOf(v)); }
  public JSONObject put(String k, double v) throws JSONException { return put(k, Double.valueOf(v)); }
  public JSONObject put(String k, boolean v) throws JSONException { return put(k, Boolean.valueOf(v)); }
  public JSONObject putOpt(String k, Object v) throws JSONException { return k == null || v == null ? this : put(k, v); }

  public boolean has(String k) { return map.containsKey(k); }
  public boolean isNull(String k) { return NULL.equals(opt(k)); }
  public int length() { return map.size(); }
  public Iterator<String> keys() { return map.keySet().iterator(); }
  public Object remove(String k) { return map.remove(k); }
  public Object opt(String k) { return k == null ? null : map.get(k); }

  public Object get(String k) throws JSONException {
    Object o = opt(k);
    if (o == null) throw new JSONException("JSONObject[" + k + "] not found.");
    return o;
  }
  public String getString(String k) throws JSONException { return get(k).toString(); }
  public int getInt(String k) throws JSONException { return toInt("JSONObject[" + k + "]", get(k)); }
  public long getLong(String k) throws JSONException {
    Object o = get(k);
    if (o instanceof Number) return ((Number) o).longValue();
    return (long) toDouble(k, o);
  }
  public double getDouble(String k) throws JSONException { return toDouble(k, get(k)); }
  public boolean getBoolean(String k) throws JSONException { return toBool("JSONObject[" + k + "]", get(k)); }
  public JSONObject getJSONObject(String k) throws JSONException {
    Object o = get(k);
    if (o instanceof JSONObject) return (JSONObject) o;
    throw new JSONException("JSONObject[" + k + "] is not a JSONObject.");
  }
  public JSONArray getJSONArray(String k) throws JSONException {
    Object o = get(k);
    if (o instanceof JSONArray) return (JSONArray) o;
    throw new JSONException("JSONObject[" + k + "] is not a JSONArray.");
  }
  public String optString(String k) { return optString(k, ""); }
  public String optString(String k, String d) { Object o = opt(k); return o == null ? d : o.toString(); }
  public boolean optBoolean(String k) { return optBoolean(k, false); }
  public boolean optBoolean(String k, boolean d) { try { return getBoolean(k); } catch (Exception e) { return d; } }
  public int optInt(String k) { return optInt(k, 0); }
  public int optInt(String k, int d) { try { return getInt(k); } catch (Exception e) { return d; } }
  public long optLong(String k) { return optLong(k, 0); }
  public long optLong(String k, long d) { try { return getLong(k); } catch (Exception e) { return d; } }
  public JSONObject optJSONObject(String k) { Object o = opt(k); return o instanceof JSONObject ? (JSONObject) o : null; }
  public JSONArray optJSONArray(String k) { Object o = opt(k); return o instanceof JSONArray ? (JSONArray) o : null; }

  static int toInt(String what, Object o) throws JSONException {
    if (o instanceof Number) return ((Number) o).intValue();
    return (int) toDouble(what, o);
  }
  private static double toDouble(String what, Object o) throws JSONException {
    if (o instanceof Number) return ((Number) o).doubleValue();
    try {
      return Double.parseDouble((String) o);
    } catch (Exception e) {
      throw new JSONException(what + " is not a number.");
    }
  }
  static boolean toBool(String what, Object o) throws JSONException {
    if (o.equals(Boolean.TRUE) || (o instanceof String && ((String) o).equalsIgnoreCase("true"))) return true;
    if (o.equals(Boolean.FALSE) || (o instanceof String && ((String) o).equalsIgnoreCase("false"))) return false;
    throw new JSONException(what + " is not a Boolean.");
  }

  public static String quote(String s) {
    StringBuilder b = new StringBuilder();
    quote(b, s);
    return b.toString();
  }

  private static void quote(StringBuilder b, String s) {
    b.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      switch (c) {
        case '"': case '\\': b.append('\\').append(c); break;
        case '\b': b.append("\\b"); break;
        case '\t': b.append("\\t"); break;
        case '\n': b.append("\\n"); break;
        case '\f': b.append("\\f"); break;
        case '\r': b.append("\\r"); break;
        default:
          if (c < ' ' || (c >= 0x80 && c < 0xa0) || (c >= 0x2000 && c < 0x2100)) b.append(String.format("\\u%04x", (int) c));
          else b.append(c);
      }
    }
    b.append('"');
  }

  static void write(StringBuilder b, Object o) {
    if (o == null || o == NULL) {
      b.append("null");
    } else if (o instanceof JSONObject) {
      b.append('{');
      String sep = "";
      for (Map.Entry<String, Object> e : ((JSONObject) o).map.entrySet()) {
        b.append(sep);
        quote(b, e.getKey());
        b.append(':');
        write(b, e.getValue());
        sep = ",";
      }
      b.append('}');
    } else if (o instanceof JSONArray) {
      b.append('[');
      JSONArray a = (JSONArray) o;
      for (int i = 0; i < a.length(); i++) {
        if (i > 0) b.append(',');
        write(b, a.opt(i));
      }
      b.append(']');
    } else if (o instanceof Number || o instanceof Boolean) {
      b.append(o.toString());
    } else {
      quote(b, o.toString());
    }
  }

  @Override
  public String toString() {
    StringBuilder b = new StringBuilder();
    write(b, this);
    return b.toString();
  }
  public String toString(int indent) { return toString(); }

  static Object parse(String s) throws JSONException {
    Parser p = new Parser(s);
    Object o = p.value(0);
    // like the original, which does not look at what follows
    return o;
  }

  private static class Parser {
    private final String s;
    private int i = 0;
    Parser(String s) { this.s = s; }

    private JSONException bad(String what) { return new JSONException(what + " at character " + i); }
    private void space() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    private char peek() throws JSONException {
      space();
      if (i >= s.length()) throw bad("Unexpected end");
      return s.charAt(i);
    }

    Object value(int depth) throws JSONException {
      if (depth > 200) throw bad("Too deep");
      char c = peek();
      if (c == '{') {
        i++;
        JSONObject o = new JSONObject();
        if (peek() == '}') { i++; return o; }
        while (true) {
          String k;
          c = peek();
          if (c == '"' || c == '\'') k = string(); else k = bare();
          if (peek() != ':') throw bad("Expected a ':' after a key");
          i++;
          o.map.put(k, value(depth + 1));
          c = peek();
          i++;
          if (c == '}') return o;
          if (c != ',' && c != ';') throw bad("Expected a ',' or '}'");
          if (peek() == '}') { i++; return o; }
        }
      }
      if (c == '[') {
        i++;
        JSONArray a = new JSONArray();
        if (peek() == ']') { i++; return a; }
        while (true) {
          a.add(value(depth + 1));
          c = peek();
          i++;
          if (c == ']') return a;
          if (c != ',' && c != ';') throw bad("Expected a ',' or ']'");
          if (peek() == ']') { i++; return a; }
        }
      }
      if (c == '"' || c == '\'') return string();
      String t = bare();
      if (t.equalsIgnoreCase("true")) return Boolean.TRUE;
      if (t.equalsIgnoreCase("false")) return Boolean.FALSE;
      if (t.equalsIgnoreCase("null")) return NULL;
      c = t.charAt(0);
      if ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+') {
        try {
          return Integer.valueOf(t);
        } catch (Exception e) {
          try {
            return Long.valueOf(t);
          } catch (Exception f) {
            try {
              return Double.valueOf(t);
            } catch (Exception g) {
              // a string
            }
          }
        }
      }
      return t;
    }

    private String bare() throws JSONException {
      space();
      int start = i;
      while (i < s.length() && s.charAt(i) >= ' ' && ",:]}/\\\"[{;=#".indexOf(s.charAt(i)) < 0) i++;
      String t = s.substring(start, i).trim();
      if (t.length() == 0) throw bad("Missing value");
      return t;
    }

    private String string() throws JSONException {
      char q = s.charAt(i++);
      StringBuilder b = new StringBuilder();
      while (true) {
        if (i >= s.length()) throw bad("Unterminated string");
        char c = s.charAt(i++);
        if (c == q) return b.toString();
        if (c == '\n' || c == '\r' || c == 0) throw bad("Unterminated string");
        if (c != '\\') { b.append(c); continue; }
        if (i >= s.length()) throw bad("Unterminated string");
        c = s.charAt(i++);
        switch (c) {
          case 'b': b.append('\b'); break;
          case 't': b.append('\t'); break;
          case 'n': b.append('\n'); break;
          case 'f': b.append('\f'); break;
          case 'r': b.append('\r'); break;
          case 'u': case 'x': {
            int n = c == 'u' ? 4 : 2;
            if (i + n > s.length()) throw bad("Unterminated string");
            try {
              b.append((char) Integer.parseInt(s.substring(i, i + n), 16));
            } catch (NumberFormatException e) {
              throw bad("Illegal escape");
            }
            i += n;
            break;
          }
          default: b.append(c);
        }
      }
    }
  }
}
