package org.json;

/** Stand-in for the class of json.org of this name (the jar is not in the sandbox). */
public class JSONException extends Exception {
  private static final long serialVersionUID = 0;
  public JSONException(String message) { super(message); }
  public JSONException(Throwable t) { super(t); }
}
