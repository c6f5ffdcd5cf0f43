/* no accelerated code */
