/* Stand-in for NumPy's header: nothing of it is needed with Python 3. */
