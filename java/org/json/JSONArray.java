package org.json;

import java.util.ArrayList;

/** Stand-in for the class of json.org of this name. */
public class JSONArray {
  private final ArrayList<Object> list = new ArrayList<Object>();

  public JSONArray() {}

  public JSONArray(String s) throws JSONException {
    Object o = JSONObject.parse(s);
    if (!(o instanceof JSONArray)) throw new JSONException("A JSONArray text must start with '['");
    list.addAll(((JSONArray) o).list);
  }

  void add(Object o) { list.add(o); }
  public int length() { return list.size(); }
  public JSONArray put(Object o) { list.add(o); return this; }
  public JSONArray put(int o) { list.add(Integer.valueOf(o)); return this; }
  public JSONArray put(long o) { list.add(Long.valueOf(o)); return this; }
  public JSONArray put(double o) { list.add(Double.valueOf(o)); return this; }
  public JSONArray put(boolean o) { list.add(Boolean.valueOf(o)); return this; }

  public Object opt(int i) { return i < 0 || i >= list.size() ? null : list.get(i); }

  public Object get(int i) throws JSONException {
    Object o = opt(i);
    if (o == null) throw new JSONException("JSONArray[" + i + "] not found.");
    return o;
  }
  public JSONObject getJSONObject(int i) throws JSONException {
    Object o = get(i);
    if (o instanceof JSONObject) return (JSONObject) o;
    throw new JSONException("JSONArray[" + i + "] is not a JSONObject.");
  }
  public JSONArray getJSONArray(int i) throws JSONException {
    Object o = get(i);
    if (o instanceof JSONArray) return (JSONArray) o;
    throw new JSONException("JSONArray[" + i + "] is not a JSONArray.");
  }
  public String getString(int i) throws JSONException { return get(i).toString(); }
  public int getInt(int i) throws JSONException { return JSONObject.toInt("JSONArray[" + i + "]", get(i)); }
  public boolean getBoolean(int i) throws JSONException { return JSONObject.toBool("JSONArray[" + i + "]", get(i)); }
  public String optString(int i) { Object o = opt(i); return o == null ? "" : o.toString(); }
  public JSONObject optJSONObject(int i) { Object o = opt(i); return o instanceof JSONObject ? (JSONObject) o : null; }
  public JSONArray optJSONArray(int i) { Object o = opt(i); return o instanceof JSONArray ? (JSONArray) o : null; }

  @Override
  public String toString() {
    StringBuilder b = new StringBuilder();
    JSONObject.write(b, this);
    return b.toString();
  }
}
