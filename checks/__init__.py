from vlib import env  # noqa: F401  (puts Hypothesis on the path)
