package javax.xml.bind.annotation;

import java.lang.annotation.*;

/** Stands in for JAXB's, with its targets and the elements that generated code uses. */
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.FIELD, ElementType.METHOD, ElementType.PACKAGE})
public @interface XmlSchemaType {
    String name();
    String namespace() default "http://www.w3.org/2001/XMLSchema";
}
