import tlc2.overrides.ITLCOverrides;

public class VerifOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() { return new Class[] { Reals.class }; }
}
